//! Protocol documents: specs, library values, and the reference encoding of standard 1.

use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;

use crate::engine::Src;
use crate::gens::*;
use crate::refimpl::{b64, encoding_label, public_b64, sign, token_bytes};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Body {
    Connect { cert: CertSpec, info: InfoSpec },
    Disconnect,
    AnnounceClient { client: ClientSpec, server: ServerSpec },
    AnnounceServer { server: ServerSpec },
    Lookup { key: KeyId, kind: Option<u8> },
    Send { sender: SenderSpec, receiver: KeyId, channel: String, message: MessageSpec },
    Poll { channel: String, limit: Option<u64> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ReqSpec {
    pub key: KeyId,
    pub seed: u64,
    pub sign: SignSpec,
    pub body: Body,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Answer {
    Connect,
    Disconnect,
    Announce,
    Send,
    Local { client: ClientSpec, available: bool },
    Remote { client: ClientSpec, server: ServerSpec, available: bool },
    Hint { servers: Vec<ServerSpec> },
    Poll { messages: Vec<MessageInfoSpec>, remaining: u64 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RespSpec {
    pub answer: Answer,
    pub key: KeyId,
    pub seed: u64,
    pub sign: SignSpec,
    /// Index of the failure status, reason; the answer then tells only the kind of the response.
    pub error: Option<(u8, String)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ServerInfoSpec {
    pub key: KeyId,
    pub seed: u64,
    pub sign: SignSpec,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Record {
    Cert(CertSpec),
    Info(InfoSpec),
    Client(ClientSpec),
    Server(ServerSpec),
    Sender(SenderSpec),
    Message(MessageSpec),
    MessageInfo(MessageInfoSpec),
    Body(Body),
    Request(ReqSpec),
    Answer(Answer),
    Response(RespSpec),
    ServerInfo(ServerInfoSpec),
    Clients(Vec<ClientSpec>),
    Servers(Vec<ServerSpec>),
}

pub const FAILURES: [(ResponseStatus, u64); 8] = [
    (ResponseStatus::ServerError, 200),
    (ResponseStatus::InvalidRequestStructure, 300),
    (ResponseStatus::RequestValidationFailed, 301),
    (ResponseStatus::ClientLookupTimeout, 310),
    (ResponseStatus::ClientNotFound, 311),
    (ResponseStatus::ClientNotConnected, 320),
    (ResponseStatus::ClientInboxFull, 321),
    (ResponseStatus::MessageTooLarge, 322),
];

pub fn sign_spec(src: &mut Src, key_id: KeyId) -> SignSpec {
    match src.weighted(&[5, 1, 2]) {
        0 => SignSpec::By(key_id),
        1 => SignSpec::By(key(src)),
        _ => SignSpec::Raw(blob(src, 100)),
    }
}

pub fn seed_sign(spec: &SignSpec, seed: u64) -> Vec<u8> {
    match spec {
        SignSpec::By(key) => sign(*key, &seed.to_be_bytes()),
        SignSpec::Raw(blob) => blob.bytes(),
    }
}

pub fn seed(src: &mut Src) -> u64 {
    if src.chance(1, 5) { num(src) } else { long_seed(src) }
}

impl Body {
    pub fn gen(src: &mut Src) -> Self {
        let k = key(src);

        match src.below(7) {
            0 => Body::Disconnect,
            1 => Body::Connect { cert: CertSpec::gen(src, k), info: InfoSpec::gen(src) },
            2 => Body::AnnounceServer { server: ServerSpec::gen(src) },
            3 => Body::AnnounceClient { client: ClientSpec::gen(src), server: ServerSpec::gen(src) },
            4 => Body::Lookup { key: k, kind: if src.bool() { Some(src.below(4) as u8) } else { None } },
            5 => Body::Poll { channel: text(src, 100), limit: if src.bool() { Some(num(src)) } else { None } },
            _ => Body::Send { sender: SenderSpec::gen(src), receiver: k, channel: text(src, 100), message: MessageSpec::gen(src, 400) },
        }
    }
}

impl Answer {
    pub fn gen(src: &mut Src) -> Self {
        match src.below(8) {
            0 => Answer::Connect,
            1 => Answer::Disconnect,
            2 => Answer::Announce,
            3 => Answer::Send,
            4 => Answer::Local { client: ClientSpec::gen(src), available: src.bool() },
            5 => Answer::Remote { client: ClientSpec::gen(src), server: ServerSpec::gen(src), available: src.bool() },
            6 => Answer::Hint { servers: src.vec(0, 4, ServerSpec::gen) },
            _ => Answer::Poll { messages: src.vec(0, 4, MessageInfoSpec::gen), remaining: num(src) },
        }
    }
}

impl ReqSpec {
    pub fn gen(src: &mut Src) -> Self {
        let key = key(src);

        Self { key, seed: seed(src), sign: sign_spec(src, key), body: Body::gen(src) }
    }
}

impl RespSpec {
    pub fn gen(src: &mut Src) -> Self {
        let key = key(src);

        Self {
            answer: Answer::gen(src),
            key,
            seed: long_seed(src),
            sign: sign_spec(src, key),
            error: if src.chance(1, 3) { Some((src.below(8) as u8, text(src, 80))) } else { None },
        }
    }
}

impl Record {
    pub fn gen(src: &mut Src) -> Self {
        match src.below(16) {
            0 => Record::Info(InfoSpec::gen(src)),
            1 => { let k = key(src); Record::Cert(CertSpec::gen(src, k)) }
            2 => Record::Server(ServerSpec::gen(src)),
            3 => Record::Client(ClientSpec::gen(src)),
            4 => Record::Sender(SenderSpec::gen(src)),
            5 => Record::Message(MessageSpec::gen(src, 2000)),
            6 => Record::MessageInfo(MessageInfoSpec::gen(src)),
            7 => Record::Body(Body::gen(src)),
            8..=9 => Record::Request(ReqSpec::gen(src)),
            10 => Record::Answer(Answer::gen(src)),
            11..=12 => Record::Response(RespSpec::gen(src)),
            13 => { let key = key(src); Record::ServerInfo(ServerInfoSpec { key, seed: seed(src), sign: sign_spec(src, key) }) }
            14 => Record::Clients(src.vec(0, 5, ClientSpec::gen)),
            _ => Record::Servers(src.vec(0, 6, ServerSpec::gen)),
        }
    }

    pub fn name(&self) -> &'static str {
        fn body(b: &Body) -> &'static str {
            match b {
                Body::Connect { .. } => "connect",
                Body::Disconnect => "disconnect",
                Body::AnnounceClient { .. } => "announce client",
                Body::AnnounceServer { .. } => "announce server",
                Body::Lookup { .. } => "lookup",
                Body::Send { .. } => "send",
                Body::Poll { .. } => "poll",
            }
        }

        match self {
            Record::Cert(_) => "certificate",
            Record::Info(_) => "client info",
            Record::Client(_) => "client",
            Record::Server(_) => "server",
            Record::Sender(_) => "sender",
            Record::Message(_) => "message",
            Record::MessageInfo(_) => "message info",
            Record::Body(_) => "request body",
            Record::Request(r) => body(&r.body),
            Record::Answer(_) => "response body",
            Record::Response(RespSpec { error: Some(_), .. }) => "error response",
            Record::Response(_) => "success response",
            Record::ServerInfo(_) => "server info",
            Record::Clients(_) => "clients",
            Record::Servers(_) => "servers",
        }
    }
}

// ------------------------------------------------------------ library values

pub fn connect_body(cert: &CertSpec, info: &InfoSpec) -> ConnectRequestBody {
    ConnectRequestBody { certificate: cert.build(), client: info.build() }
}

impl ReqSpec {
    pub fn wrap<T>(&self, request: T) -> Request<T> {
        Request {
            standard: 1,
            public_key: public(self.key),
            proof_seed: self.seed,
            proof_sign: seed_sign(&self.sign, self.seed),
            request,
        }
    }
}

impl RespSpec {
    pub fn wrap<T>(&self, response: T) -> Response<T> {
        match &self.error {
            Some((status, reason)) => Response::Error {
                standard: 1,
                status: FAILURES[*status as usize % 8].0,
                reason: reason.clone(),
            },

            None => Response::Success {
                standard: 1,
                status: ResponseStatus::Success,
                public_key: public(self.key),
                proof_sign: seed_sign(&self.sign, self.seed),
                response,
            },
        }
    }
}

impl ServerInfoSpec {
    pub fn build(&self) -> InfoResponse {
        InfoResponse {
            standard: 1,
            public_key: public(self.key),
            proof_seed: self.seed,
            proof_sign: seed_sign(&self.sign, self.seed),
        }
    }
}

pub fn lookup_answer(answer: &Answer) -> LookupResponseBody {
    match answer {
        Answer::Local { client, available } => LookupResponseBody::Local { client: client.build(), available: *available },

        Answer::Remote { client, server, available } => LookupResponseBody::Remote {
            client: client.build(),
            server: server.build(),
            available: *available,
        },

        Answer::Hint { servers } => LookupResponseBody::Hint { servers: servers.iter().map(ServerSpec::build).collect() },
        _ => unreachable!(),
    }
}

/// Evaluate the expression with the library value of the record, whichever type it has.
#[macro_export]
macro_rules! with_value {
    ($record:expr, $v:ident => $e:expr, clients $c:ident => $ce:expr) => {{
        use $crate::wire::{Record, Body, Answer, lookup_answer, connect_body};

        match $record {
            Record::Cert(s) => { let $v = s.build(); $e }
            Record::Info(s) => { let $v = s.build(); $e }
            Record::Client(s) => { let $v = s.build(); $e }
            Record::Server(s) => { let $v = s.build(); $e }
            Record::Sender(s) => { let $v = s.build(); $e }
            Record::Message(s) => { let $v = s.build(); $e }
            Record::MessageInfo(s) => { let $v = s.build(); $e }

            Record::Body(b) => match b {
                Body::Connect { cert, info } => { let $v = connect_body(cert, info); $e }
                Body::Disconnect => { let $v = DisconnectRequestBody; $e }
                Body::AnnounceClient { client, server } => { let $v = AnnounceRequestBody::Client { client: client.build(), server: server.build() }; $e }
                Body::AnnounceServer { server } => { let $v = AnnounceRequestBody::Server { server: server.build() }; $e }
                Body::Lookup { key, kind } => { let $v = LookupRequestBody { public_key: public(*key), client_type: kind.map(client_type) }; $e }
                Body::Send { sender, receiver, channel, message } => {
                    let $v = SendRequestBody { sender: sender.build(), receiver_public: public(*receiver), channel: channel.clone(), message: message.build() };
                    $e
                }
                Body::Poll { channel, limit } => { let $v = PollRequestBody { channel: channel.clone(), limit: *limit }; $e }
            },

            Record::Request(r) => match &r.body {
                Body::Connect { cert, info } => { let $v = ConnectRequest(r.wrap(connect_body(cert, info))); $e }
                Body::Disconnect => { let $v = DisconnectRequest(r.wrap(DisconnectRequestBody)); $e }
                Body::AnnounceClient { client, server } => { let $v = AnnounceRequest(r.wrap(AnnounceRequestBody::Client { client: client.build(), server: server.build() })); $e }
                Body::AnnounceServer { server } => { let $v = AnnounceRequest(r.wrap(AnnounceRequestBody::Server { server: server.build() })); $e }
                Body::Lookup { key, kind } => { let $v = LookupRequest(r.wrap(LookupRequestBody { public_key: public(*key), client_type: kind.map(client_type) })); $e }
                Body::Send { sender, receiver, channel, message } => {
                    let $v = SendRequest(r.wrap(SendRequestBody { sender: sender.build(), receiver_public: public(*receiver), channel: channel.clone(), message: message.build() }));
                    $e
                }
                Body::Poll { channel, limit } => { let $v = PollRequest(r.wrap(PollRequestBody { channel: channel.clone(), limit: *limit })); $e }
            },

            Record::Answer(a) => match a {
                Answer::Connect => { let $v = ConnectResponseBody; $e }
                Answer::Disconnect => { let $v = DisconnectResponseBody; $e }
                Answer::Announce => { let $v = AnnounceResponseBody; $e }
                Answer::Send => { let $v = SendResponseBody; $e }
                Answer::Poll { messages, remaining } => { let $v = PollResponseBody { messages: messages.iter().map(MessageInfoSpec::build).collect(), remaining: *remaining }; $e }
                answer => { let $v = lookup_answer(answer); $e }
            },

            Record::Response(r) => match &r.answer {
                Answer::Connect => { let $v = ConnectResponse(r.wrap(ConnectResponseBody)); $e }
                Answer::Disconnect => { let $v = DisconnectResponse(r.wrap(DisconnectResponseBody)); $e }
                Answer::Announce => { let $v = AnnounceResponse(r.wrap(AnnounceResponseBody)); $e }
                Answer::Send => { let $v = SendResponse(r.wrap(SendResponseBody)); $e }
                Answer::Poll { messages, remaining } => { let $v = PollResponse(r.wrap(PollResponseBody { messages: messages.iter().map(MessageInfoSpec::build).collect(), remaining: *remaining })); $e }
                answer => { let $v = LookupResponse(r.wrap(lookup_answer(answer))); $e }
            },

            Record::ServerInfo(s) => { let $v = s.build(); $e }
            Record::Clients(list) => { let $c = ClientsResponse { standard: 1, clients: list.iter().map(ClientSpec::build).collect() }; $ce }
            Record::Servers(list) => { let $v = ServersResponse { standard: 1, servers: list.iter().map(ServerSpec::build).collect() }; $e }
        }
    }};

    ($record:expr, $v:ident => $e:expr) => { $crate::with_value!($record, $v => $e, clients $v => $e) };
}

/// Parse JSON text the way the receiver would do, as the type of the given value.
pub fn decode_like<T: AsJson>(_like: &T, json: &Json) -> Result<T, String> {
    T::from_json(json).map_err(|err| err.to_string())
}

// --------------------------------------------------------- reference encoding

pub fn cert_json(s: &CertSpec) -> Json {
    json!({ "token": b64(&token_bytes(&s.token)), "sign": b64(&s.sign_bytes()) })
}

pub fn info_json(s: &InfoSpec) -> Json {
    json!({ "type": TYPE_NAMES[s.kind as usize % 4], "address": s.address })
}

pub fn client_json(s: &ClientSpec) -> Json {
    json!({ "public_key": public_b64(s.key), "certificate": cert_json(&s.cert), "client": info_json(&s.info) })
}

pub fn server_json(s: &ServerSpec) -> Json {
    json!({ "public_key": public_b64(s.key), "address": s.address })
}

pub fn sender_json(s: &SenderSpec) -> Json {
    json!({ "client": client_json(&s.client), "server": server_json(&s.server) })
}

pub fn message_json(s: &MessageSpec) -> Json {
    json!({ "content": s.content, "sign": s.sign, "encoding": encoding_label(s.encoding) })
}

pub fn message_info_json(s: &MessageInfoSpec) -> Json {
    json!({ "sender": sender_json(&s.sender), "channel": s.channel, "message": message_json(&s.message), "received_at": s.received_at })
}

pub fn body_json(body: &Body) -> Json {
    match body {
        Body::Connect { cert, info } => json!({ "certificate": cert_json(cert), "client": info_json(info) }),
        Body::Disconnect => json!({}),
        Body::AnnounceClient { client, server } => json!({ "announce": "client", "client": client_json(client), "server": server_json(server) }),
        Body::AnnounceServer { server } => json!({ "announce": "server", "server": server_json(server) }),
        Body::Lookup { key, kind } => json!({ "public_key": public_b64(*key), "type": kind.map(|k| TYPE_NAMES[k as usize % 4]) }),

        Body::Send { sender, receiver, channel, message } => json!({
            "sender": sender_json(sender),
            "receiver": { "public_key": public_b64(*receiver) },
            "channel": channel,
            "message": message_json(message)
        }),

        Body::Poll { channel, limit } => json!({ "channel": channel, "limit": limit }),
    }
}

pub fn answer_json(answer: &Answer) -> Json {
    match answer {
        Answer::Connect | Answer::Disconnect | Answer::Announce | Answer::Send => json!({}),
        Answer::Local { client, available } => json!({ "disposition": "local", "client": client_json(client), "available": available }),
        Answer::Remote { client, server, available } => json!({ "disposition": "remote", "client": client_json(client), "server": server_json(server), "available": available }),
        Answer::Hint { servers } => json!({ "disposition": "hint", "servers": servers.iter().map(server_json).collect::<Vec<_>>() }),
        Answer::Poll { messages, remaining } => json!({ "messages": messages.iter().map(message_info_json).collect::<Vec<_>>(), "remaining": remaining }),
    }
}

pub fn request_json(r: &ReqSpec) -> Json {
    json!({
        "standard": 1,
        "public_key": public_b64(r.key),
        "proof": { "seed": r.seed, "sign": b64(&seed_sign(&r.sign, r.seed)) },
        "request": body_json(&r.body)
    })
}

pub fn response_json(r: &RespSpec) -> Json {
    match &r.error {
        Some((status, reason)) => json!({ "standard": 1, "status": FAILURES[*status as usize % 8].1, "reason": reason }),

        None => json!({
            "standard": 1,
            "status": 100,
            "public_key": public_b64(r.key),
            "proof": { "sign": b64(&seed_sign(&r.sign, r.seed)) },
            "response": answer_json(&r.answer)
        }),
    }
}

impl Record {
    pub fn reference(&self) -> Json {
        match self {
            Record::Cert(s) => cert_json(s),
            Record::Info(s) => info_json(s),
            Record::Client(s) => client_json(s),
            Record::Server(s) => server_json(s),
            Record::Sender(s) => sender_json(s),
            Record::Message(s) => message_json(s),
            Record::MessageInfo(s) => message_info_json(s),
            Record::Body(b) => body_json(b),
            Record::Request(r) => request_json(r),
            Record::Answer(a) => answer_json(a),
            Record::Response(r) => response_json(r),

            Record::ServerInfo(s) => json!({
                "standard": 1,
                "server": { "public_key": public_b64(s.key) },
                "proof": { "seed": s.seed, "sign": b64(&seed_sign(&s.sign, s.seed)) }
            }),

            Record::Clients(list) => json!({ "standard": 1, "clients": list.iter().map(client_json).collect::<Vec<_>>() }),
            Record::Servers(list) => json!({ "standard": 1, "servers": list.iter().map(server_json).collect::<Vec<_>>() }),
        }
    }
}
