//! C11, C12, C13: proofs of requests, certificates and responses.

use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;

use crate::checks::crypto::Edit;
use crate::engine::*;
use crate::gens::*;
use crate::refimpl;
use crate::wire::*;
use crate::{ensure, fail};

fn trip<T: AsJson>(value: &T) -> Result<T, Fail> {
    let text = value.to_json().map_err(|e| Fail(format!("can't be serialised: {e}")))?.to_string();
    let json = serde_json::from_str::<Json>(&text).map_err(|e| Fail(e.to_string()))?;

    T::from_json(&json).map_err(|e| Fail(format!("{} can't be parsed: {e}", short(&text))))
}

fn judge(what: &str, result: Result<bool, String>, expected: bool) -> Verdict {
    match result {
        Ok(valid) if valid == expected => Ok(()),
        Ok(valid) => fail!("{what}: validation gives {valid}, the independent one {expected}"),
        Err(err) if expected => fail!("{what}: valid one is refused: {err}"),
        Err(_) => Ok(()),
    }
}

/// Signature over an edited message, by any key, or edited itself.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Forgery {
    by: KeyId,
    /// What is signed instead: 0 the right bytes, 1 other seed, 2 little endian, 3 decimal, 4 nothing, 5 token of another date, 6 the SHA-256 of the bytes, 7 the bytes twice
    over: u8,
    number: u64,
    edit: Option<Edit>,
    /// Another form of the same signature: 1 negated, 2 DER
    #[serde(default)]
    form: u8,
}

impl Forgery {
    pub fn gen(src: &mut Src, key_id: KeyId) -> Self {
        Self {
            by: if src.chance(1, 4) { key(src) } else { key_id },
            over: if src.chance(1, 3) { src.below(8) as u8 } else { 0 },
            number: long_seed(src),
            edit: if src.chance(1, 4) { Some(Edit::gen(src)) } else { None },
            form: if src.chance(1, 8) { 1 + src.below(2) as u8 } else { 0 },
        }
    }

    pub fn genuine(key: KeyId) -> Self {
        Self { by: key, over: 0, number: 0, edit: None, form: 0 }
    }

    pub fn sign(&self, bytes: &[u8]) -> Vec<u8> {
        use sha2::Digest;

        let message = match self.over {
            0 => bytes.to_vec(),
            1 => self.number.to_be_bytes().to_vec(),
            2 => bytes.iter().rev().copied().collect(),
            3 => bytes.iter().fold(0u64, |a, b| a << 8 | *b as u64).to_string().into_bytes(),
            4 => vec![],
            5 => [&self.number.to_be_bytes()[..], bytes.get(8..).unwrap_or(&[])].concat(),
            6 => sha2::Sha256::digest(bytes).to_vec(),
            _ => [bytes, bytes].concat(),
        };

        let sign = refimpl::sign(self.by, &message);

        let sign = match self.form {
            0 => sign,
            1 => crate::checks::crypto::negate(&sign),
            _ => crate::checks::crypto::der(&sign),
        };

        match &self.edit {
            Some(edit) => edit.apply(&sign),
            None => sign,
        }
    }

    pub fn spec(&self, bytes: &[u8]) -> SignSpec {
        SignSpec::Raw(Blob::Hex(hex(&self.sign(bytes))))
    }
}

pub fn maybe_forged(src: &mut Src, key: KeyId) -> Forgery {
    if src.chance(2, 5) { Forgery::gen(src, key) } else { Forgery::genuine(key) }
}

pub fn pool(src: &mut Src) -> KeyId {
    match src.below(24) {
        0..=3 => key(src),
        // Keys which differ by the sign of their point only
        4 => 65534 + src.below(2) as KeyId,
        _ => src.below(4) as KeyId,
    }
}

/// The key of the negated point, if there's one, or another one.
fn rival(src: &mut Src, key: KeyId) -> KeyId {
    match key {
        65534 | 65535 if src.chance(3, 4) => key ^ 1,
        _ => pool(src),
    }
}

/// Certificate, mostly of the client for the server.
pub fn cert(src: &mut Src, client: KeyId, server: KeyId) -> CertSpec {
    let token = TokenSpec {
        date: date(src),
        server: if src.chance(1, 5) { pool(src) } else { server },
    };

    let sign = maybe_forged(src, client).spec(&refimpl::token_bytes(&token));

    CertSpec { token, sign }
}

pub fn cert_valid(cert: &CertSpec, client: KeyId, server: KeyId) -> bool {
    cert.token.server == server && refimpl::verify(client, &refimpl::token_bytes(&cert.token), &cert.sign_bytes())
}

// ----------------------------------------------------------------------- C11

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C11 {
    Made { server: KeyId, request: ReqSpec },
    Built { key: KeyId, server: KeyId, body: Body },
}

fn c11_body(src: &mut Src, key: KeyId, server: KeyId) -> Body {
    match src.below(9) {
        0 => Body::Disconnect,
        1..=2 => Body::Connect { cert: cert(src, key, server), info: InfoSpec::gen(src) },
        3..=4 => {
            let client = if src.chance(1, 3) { key } else { pool(src) };
            let at = if src.chance(1, 3) { server } else { pool(src) };

            Body::AnnounceClient {
                client: ClientSpec { key: client, cert: cert(src, client, at), info: InfoSpec::gen(src) },
                server: ServerSpec { key: at, address: text(src, 30) },
            }
        }
        5 => Body::AnnounceServer { server: ServerSpec::gen(src) },
        6 => Body::Lookup { key: pool(src), kind: if src.bool() { Some(src.below(4) as u8) } else { None } },
        7 => Body::Poll { channel: text(src, 30), limit: if src.bool() { Some(num(src)) } else { None } },
        _ => Body::Send { sender: SenderSpec::gen(src), receiver: pool(src), channel: text(src, 30), message: MessageSpec::gen(src, 50) },
    }
}

fn c11_gen(src: &mut Src) -> C11 {
    let (key, server) = (pool(src), pool(src));

    if src.chance(1, 5) {
        return C11::Built { key, server, body: c11_body(src, key, server) };
    }

    let seed = if src.chance(1, 5) {
        match src.below(3) { 0 => (1 << 63) - 1 - src.below(3), 1 => num(src), _ => (1 << 63) + src.below(3) }
    } else {
        long_seed(src)
    };

    let sign = maybe_forged(src, key).spec(&seed.to_be_bytes());

    C11::Made { server, request: ReqSpec { key, seed, sign, body: c11_body(src, key, server) } }
}

fn c11_run(case: &C11, cx: &mut Cx) -> Verdict {
    macro_rules! both {
        ($request:expr, $expected:expr, $v:ident => $validate:expr) => {{
            let request = $request;
            { let $v = &request; judge("request", guarded(|| $validate)?.map_err(|e| e.to_string()), $expected)?; }
            let arrived = trip(&request)?;
            { let $v = &arrived; judge("request after the trip", guarded(|| $validate)?.map_err(|e| e.to_string()), $expected)?; }
        }};
    }

    match case {
        C11::Made { server, request: r } => {
            cx.nontrivial();

            let sign = seed_sign(&r.sign, r.seed);
            let header = r.seed >> 63 == 1 && refimpl::verify(r.key, &r.seed.to_be_bytes(), &sign);

            let expected = header && match &r.body {
                Body::Connect { cert, .. } => cert_valid(cert, r.key, *server),
                Body::AnnounceClient { client, server } => cert_valid(&client.cert, client.key, server.key),
                _ => true,
            };

            cx.label(Record::Request(r.clone()).name());
            cx.label(if expected { "valid" } else if header { "invalid certificate" } else { "invalid proof" });
            cx.label_if(r.seed >> 63 == 0, "short seed");

            match &r.body {
                Body::Connect { cert, info } => both!(ConnectRequest(r.wrap(connect_body(cert, info))), expected, v => v.validate(&public(*server))),
                Body::Disconnect => both!(DisconnectRequest(r.wrap(DisconnectRequestBody)), expected, v => v.validate()),
                Body::AnnounceClient { client, server } => both!(AnnounceRequest(r.wrap(AnnounceRequestBody::Client { client: client.build(), server: server.build() })), expected, v => v.validate()),
                Body::AnnounceServer { server } => both!(AnnounceRequest(r.wrap(AnnounceRequestBody::Server { server: server.build() })), expected, v => v.validate()),
                Body::Lookup { key, kind } => both!(LookupRequest(r.wrap(LookupRequestBody { public_key: public(*key), client_type: kind.map(client_type) })), expected, v => v.validate()),
                Body::Poll { channel, limit } => both!(PollRequest(r.wrap(PollRequestBody { channel: channel.clone(), limit: *limit })), expected, v => v.validate()),
                Body::Send { sender, receiver, channel, message } => both!(
                    SendRequest(r.wrap(SendRequestBody { sender: sender.build(), receiver_public: public(*receiver), channel: channel.clone(), message: message.build() })),
                    expected, v => v.validate()
                ),
            }

            // The bare header as well
            both!(r.wrap(()), header, v => v.validate());

            Ok(())
        }

        C11::Built { key, server, body } => {
            cx.nontrivial();
            cx.label("built by the library");
            let secret = secret(*key);

            macro_rules! built {
                ($request:expr, $v:ident => $validate:expr) => {{
                    let request = $request;
                    ensure!(request.0.standard == 1, "built request has standard {}", request.0.standard);
                    ensure!(request.0.public_key == public(*key), "built request names another key");
                    ensure!(request.0.proof_seed >> 63 == 1, "built request has a short seed {}", request.0.proof_seed);
                    ensure!(refimpl::verify(*key, &request.0.proof_seed.to_be_bytes(), &request.0.proof_sign), "proof of the built request isn't valid");
                    both!(request, true, $v => $validate);
                }};
            }

            match body {
                Body::Connect { info, .. } => {
                    built!(ConnectRequest::new(&secret, public(*server), info.build()), v => v.validate(&public(*server)));

                    // For no other server
                    let other = if *server == 3 { 2 } else { 3 };
                    let request = ConnectRequest::new(&secret, public(*server), info.build());
                    judge("connect request to another server", request.validate(&public(other)).map_err(|e| e.to_string()), false)?;
                }

                Body::Disconnect => built!(DisconnectRequest::new(&secret), v => v.validate()),
                Body::AnnounceServer { server } => built!(AnnounceRequest::server(&secret, server.build()), v => v.validate()),

                Body::AnnounceClient { client, server } => {
                    // Announcing a genuinely connected client
                    let mut client = client.clone();
                    client.cert = CertSpec::genuine(client.key, server.key, client.cert.token.date);
                    built!(AnnounceRequest::client(&secret, client.build(), server.build()), v => v.validate());
                }

                Body::Lookup { key: target, kind } => built!(LookupRequest::new(&secret, public(*target), kind.map(client_type)), v => v.validate()),
                Body::Poll { channel, limit } => built!(PollRequest::new(&secret, channel, *limit), v => v.validate()),
                Body::Send { sender, receiver, channel, message } => built!(SendRequest::new(&secret, sender.build(), public(*receiver), channel, message.build()), v => v.validate()),
            }

            Ok(())
        }
    }
}

pub fn c11() -> Check {
    Def {
        id: "C11",
        level: "exploration",
        rule: "every case is a request judged by the independent validator, before and after travelling as JSON",
        assumptions: &["reference: k256 ECDSA used directly over the big-endian seed and the token's bytes"],
        quick: 40_000,
        thorough: 1_000_000,
        shards: 8,
        gen: c11_gen,
        run: c11_run,
    }.build()
}

// ----------------------------------------------------------------------- C12

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C12 {
    Made {
        signed: TokenSpec,
        presented: TokenSpec,
        sign: Forgery,
        client: KeyId,
        server: KeyId,
    },
    Built { client: KeyId, server: KeyId, other: KeyId },
}

fn c12_gen(src: &mut Src) -> C12 {
    let (client, server) = (pool(src), pool(src));

    if src.chance(1, 8) {
        return C12::Built { client, server, other: rival(src, server) };
    }

    let signed = TokenSpec { date: date(src), server: if src.chance(1, 6) { pool(src) } else { server } };
    let mut presented = signed.clone();

    if src.chance(1, 5) {
        presented.date = match src.below(4) {
            0 => presented.date ^ (1 << src.below(64)),
            1 => presented.date.wrapping_add(1 + src.below(3)),
            2 => presented.date.swap_bytes(),
            _ => date(src),
        };
    }
    if src.chance(1, 6) { presented.server = pool(src); }

    let sign = maybe_forged(src, client);

    C12::Made {
        signed,
        presented,
        sign,
        client: if src.chance(1, 8) { rival(src, client) } else { client },
        server: if src.chance(1, 8) { rival(src, server) } else { server },
    }
}

fn c12_run(case: &C12, cx: &mut Cx) -> Verdict {
    cx.nontrivial();

    match case {
        C12::Made { signed, presented, sign, client, server } => {
            let sign = sign.sign(&refimpl::token_bytes(signed));
            let bytes = refimpl::token_bytes(presented);

            let expected = presented.server == *server && refimpl::verify(*client, &bytes, &sign);

            cx.label(if expected { "valid" } else { "invalid" });
            cx.label_if(presented != signed, "altered token");

            let token = presented.build();

            ensure!(token.to_bytes()[..] == bytes[..], "token's bytes are {} instead of {}", hex(&token.to_bytes()), hex(&bytes));

            match ConnectionToken::from_bytes(&bytes) {
                Ok(back) => ensure!(back == token, "token changed in its binary form"),
                Err(err) => fail!("token can't be read from its bytes: {err}"),
            }

            let cert = ConnectionCertificate { token, sign };

            judge("certificate", guarded(|| cert.validate(&public(*client), &public(*server)))?.map_err(|e| e.to_string()), expected)?;

            let arrived = trip(&cert)?;
            ensure!(arrived == cert, "certificate changed on the wire");

            judge("certificate after the trip", guarded(|| arrived.validate(&public(*client), &public(*server)))?.map_err(|e| e.to_string()), expected)?;

            // For any other server or client it isn't valid
            for k in 0..4 {
                let valid = presented.server == k && refimpl::verify(*client, &bytes, &cert.sign);
                judge("certificate for another server", guarded(|| cert.validate(&public(*client), &public(k)))?.map_err(|e| e.to_string()), valid)?;
            }

            let other = if *client == 3 { 2 } else { 3 };
            let valid = presented.server == *server && refimpl::verify(other, &bytes, &cert.sign);
            judge("certificate of another client", guarded(|| cert.validate(&public(other), &public(*server)))?.map_err(|e| e.to_string()), valid)
        }

        C12::Built { client, server, other } => {
            cx.label("built by the library");

            let before = timestamp();
            let cert = ConnectionCertificate::new(&secret(*client), public(*server));
            let after = timestamp();

            let spec = TokenSpec { date: cert.token.auth_date, server: *server };

            ensure!(cert.token.public_key == public(*server), "certificate names another server");
            ensure!(before <= spec.date && spec.date <= after, "certificate is dated {} between {before} and {after}", spec.date);
            ensure!(refimpl::verify(*client, &refimpl::token_bytes(&spec), &cert.sign), "certificate isn't signed by the client");

            let arrived = trip(&cert)?;
            ensure!(arrived == cert, "certificate changed on the wire");

            judge("built certificate", arrived.validate(&public(*client), &public(*server)).map_err(|e| e.to_string()), true)?;
            judge("certificate for another server", arrived.validate(&public(*client), &public(*other)).map_err(|e| e.to_string()), other == server)?;
            judge("certificate of another client", arrived.validate(&public(*other), &public(*server)).map_err(|e| e.to_string()), other == client)
        }
    }
}

pub fn c12() -> Check {
    Def {
        id: "C12",
        level: "exploration",
        rule: "every case is a certificate judged by the independent validator",
        assumptions: &["the token is 8 bytes of big-endian date and 33 bytes of the server's key"],
        quick: 30_000,
        thorough: 800_000,
        shards: 8,
        gen: c12_gen,
        run: c12_run,
    }.build()
}

// ----------------------------------------------------------------------- C13

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C13 {
    Made { response: RespSpec, asked: u64 },
    /// Variant and status which don't belong together.
    Odd { error: bool, status: u8, key: KeyId, seed: u64 },
    Built { key: KeyId, seed: u64, asked: u64, answer: Answer },
    /// A document with fields of both variants, where `fields` are the present ones.
    Mixed { response: RespSpec, status: u8, fields: u8 },
    Info { key: KeyId, seed: u64, sign: Forgery },
    BuiltInfo { key: KeyId },
}

fn near(src: &mut Src, seed: u64) -> u64 {
    match src.below(6) {
        0..=2 => seed,
        3 => seed ^ (1 << src.below(64)),
        4 => seed.swap_bytes(),
        _ => long_seed(src),
    }
}

fn c13_gen(src: &mut Src) -> C13 {
    let k = pool(src);

    let seed = match src.below(8) {
        0 => num(src),
        1 => (1 << 63) - 1 + src.below(3),
        _ => long_seed(src),
    };

    match src.below(12) {
        10..=11 => {
            let sign = maybe_forged(src, k).spec(&seed.to_be_bytes());

            C13::Mixed {
                response: RespSpec { answer: Answer::gen(src), key: k, seed, sign, error: None },
                status: src.below(9) as u8,
                fields: src.below(16) as u8,
            }
        }

        0 => C13::Odd { error: src.bool(), status: src.below(9) as u8, key: k, seed },
        1..=2 => C13::Built { key: k, seed, asked: near(src, seed), answer: Answer::gen(src) },
        3 => C13::Info { key: k, seed, sign: maybe_forged(src, k) },
        4 => C13::BuiltInfo { key: k },
        _ => {
            let sign = maybe_forged(src, k).spec(&seed.to_be_bytes());

            C13::Made {
                asked: near(src, seed),
                response: RespSpec {
                    answer: Answer::gen(src),
                    key: k,
                    seed,
                    sign,
                    error: if src.chance(1, 5) { Some((src.below(8) as u8, text(src, 40))) } else { None },
                },
            }
        }
    }
}

fn is_error<T>(response: &Response<T>) -> bool {
    matches!(response, Response::Error { .. })
}

fn c13_run(case: &C13, cx: &mut Cx) -> Verdict {
    cx.nontrivial();

    macro_rules! both {
        ($response:expr, $asked:expr, $expected:expr, $error:expr) => {{
            let response = $response;
            judge("response", guarded(|| response.validate($asked))?.map_err(|e| e.to_string()), $expected)?;
            let arrived = trip(&response)?;
            ensure!(is_error(&arrived.0) == $error, "response has become {} on the wire", if $error { "a success" } else { "an error" });
            ensure!(arrived == response, "response changed on the wire");
            judge("response after the trip", guarded(|| arrived.validate($asked))?.map_err(|e| e.to_string()), $expected)?;
        }};
    }

    match case {
        C13::Made { response: r, asked } => {
            let sign = seed_sign(&r.sign, r.seed);
            let error = r.error.is_some();
            let expected = error || asked >> 63 == 1 && refimpl::verify(r.key, &asked.to_be_bytes(), &sign);

            cx.label(if error { "error" } else if expected { "valid" } else { "invalid" });
            cx.label_if(*asked != r.seed, "another seed");

            match &r.answer {
                Answer::Connect => both!(ConnectResponse(r.wrap(ConnectResponseBody)), *asked, expected, error),
                Answer::Disconnect => both!(DisconnectResponse(r.wrap(DisconnectResponseBody)), *asked, expected, error),
                Answer::Announce => both!(AnnounceResponse(r.wrap(AnnounceResponseBody)), *asked, expected, error),
                Answer::Send => both!(SendResponse(r.wrap(SendResponseBody)), *asked, expected, error),
                Answer::Poll { messages, remaining } => both!(
                    PollResponse(r.wrap(PollResponseBody { messages: messages.iter().map(MessageInfoSpec::build).collect(), remaining: *remaining })),
                    *asked, expected, error
                ),
                answer => both!(LookupResponse(r.wrap(lookup_answer(answer))), *asked, expected, error),
            }

            Ok(())
        }

        C13::Odd { error, status, key, seed } => {
            cx.label("variant at odds with its status");

            let status = FAILURES.get(*status as usize).map(|f| f.0).unwrap_or(ResponseStatus::Success);

            let response = ConnectResponse(if *error {
                Response::Error { standard: 1, status, reason: String::from("reason") }
            } else {
                Response::Success { standard: 1, status, public_key: public(*key), proof_sign: refimpl::sign(*key, &seed.to_be_bytes()), response: ConnectResponseBody }
            });

            // It may be refused on either side, but it never turns into the other variant
            if let Ok(json) = response.to_json() {
                if let Ok(arrived) = ConnectResponse::from_json(&json) {
                    ensure!(is_error(&arrived.0) == *error, "{} has become {} on the wire", if *error { "error" } else { "success" }, if *error { "success" } else { "error" });
                }
            }

            if *error {
                judge("error response", response.validate(*seed).map_err(|e| e.to_string()), true)?;
            }

            Ok(())
        }

        C13::Mixed { response: r, status, fields } => {
            cx.label("fields of both variants");

            let mut document = Record::Response(r.clone()).reference();
            let code = FAILURES.get(*status as usize).map(|f| f.1).unwrap_or(100);
            document["status"] = json!(code);

            for (i, field) in ["public_key", "proof", "response"].into_iter().enumerate() {
                if fields >> i & 1 == 0 {
                    document.as_object_mut().map(|o| o.remove(field));
                }
            }

            if fields & 8 != 0 {
                document["reason"] = json!("reason");
            }

            let complete = if code == 100 { fields & 7 == 7 } else { fields & 8 != 0 };

            cx.label(if code == 100 { "success status" } else { "failure status" });
            cx.label_if(!complete, "required field missing");

            macro_rules! mixed { ($t:ident) => {
                // A document which is complete but has more fields may also be refused
                if let Ok(arrived) = $t::from_json(&document) {
                    ensure!(is_error(&arrived.0) == (code != 100), "{document} is decoded as {}", if code == 100 { "an error" } else { "a success" });
                    ensure!(complete, "{document} is decoded though a field is missing");

                    if code == 100 {
                        let expected = r.seed >> 63 == 1 && refimpl::verify(r.key, &r.seed.to_be_bytes(), &seed_sign(&r.sign, r.seed));
                        judge("response", guarded(|| arrived.validate(r.seed))?.map_err(|e| e.to_string()), expected)?;
                    }
                }
            } }

            match &r.answer {
                Answer::Connect => mixed!(ConnectResponse),
                Answer::Disconnect => mixed!(DisconnectResponse),
                Answer::Announce => mixed!(AnnounceResponse),
                Answer::Send => mixed!(SendResponse),
                Answer::Poll { .. } => mixed!(PollResponse),
                _ => mixed!(LookupResponse),
            }

            Ok(())
        }

        C13::Built { key, seed, asked, answer } => {
            cx.label("built by the library");
            let secret = secret(*key);
            let ok = ResponseStatus::Success;
            let expected = asked >> 63 == 1 && asked == seed;

            cx.label(if expected { "valid" } else { "invalid" });

            macro_rules! built {
                ($response:expr) => {{
                    let response = $response;
                    match &response.0 {
                        Response::Success { standard, status, public_key, proof_sign, .. } => {
                            ensure!(*standard == 1 && *status == ok && public_key == &public(*key), "built response has a wrong header");
                            ensure!(refimpl::verify(*key, &seed.to_be_bytes(), proof_sign), "proof of the built response isn't valid");
                        }
                        Response::Error { .. } => fail!("built success is an error"),
                    }
                    both!(response, *asked, expected, false);
                }};
            }

            match answer {
                Answer::Connect => built!(ConnectResponse::success(ok, &secret, *seed)),
                Answer::Disconnect => built!(DisconnectResponse::success(ok, &secret, *seed)),
                Answer::Announce => built!(AnnounceResponse::success(ok, &secret, *seed)),
                Answer::Send => built!(SendResponse::success(ok, &secret, *seed)),
                Answer::Poll { messages, remaining } => built!(PollResponse::success(ok, &secret, *seed, PollResponseBody { messages: messages.iter().map(MessageInfoSpec::build).collect(), remaining: *remaining })),
                answer => built!(LookupResponse::success(ok, &secret, *seed, lookup_answer(answer))),
            }

            // Errors
            let (status, _) = FAILURES[(*seed % 8) as usize];
            macro_rules! failed { ($t:ident) => { both!($t::error(status, "reason"), *asked, true, true) } }

            match answer {
                Answer::Connect => failed!(ConnectResponse),
                Answer::Disconnect => failed!(DisconnectResponse),
                Answer::Announce => failed!(AnnounceResponse),
                Answer::Send => failed!(SendResponse),
                Answer::Poll { .. } => failed!(PollResponse),
                _ => failed!(LookupResponse),
            }

            Ok(())
        }

        C13::Info { key, seed, sign } => {
            cx.label("server information");
            let proof_sign = sign.sign(&seed.to_be_bytes());
            let expected = seed >> 63 == 1 && refimpl::verify(*key, &seed.to_be_bytes(), &proof_sign);
            let info = InfoResponse { standard: 1, public_key: public(*key), proof_seed: *seed, proof_sign };

            cx.label(if expected { "valid" } else { "invalid" });

            judge("server information", guarded(|| info.validate())?.map_err(|e| e.to_string()), expected)?;
            let arrived = trip(&info)?;
            ensure!(arrived == info, "server information changed on the wire");
            judge("server information after the trip", guarded(|| arrived.validate())?.map_err(|e| e.to_string()), expected)
        }

        C13::BuiltInfo { key } => {
            cx.label("built by the library");
            let info = InfoResponse::new(&secret(*key));

            ensure!(info.standard == 1 && info.public_key == public(*key) && info.proof_seed >> 63 == 1, "built information has a wrong header");
            ensure!(refimpl::verify(*key, &info.proof_seed.to_be_bytes(), &info.proof_sign), "proof of the built information isn't valid");

            let arrived = trip(&info)?;
            judge("built server information", arrived.validate().map_err(|e| e.to_string()), true)
        }
    }
}

pub fn c13() -> Check {
    Def {
        id: "C13",
        level: "exploration",
        rule: "every case is a response judged by the independent validator, before and after travelling as JSON",
        assumptions: &["reference: k256 ECDSA used directly over the big-endian seed"],
        quick: 40_000,
        thorough: 1_000_000,
        shards: 8,
        gen: c13_gen,
        run: c13_run,
    }.build()
}
