//! C37, C38: constructors, equality and hashes.

use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use hyperborealib::drivers::server::ServerParams;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;
use hyperborealib::time::timestamp;

use crate::engine::*;
use crate::gens::*;
use crate::net::{Mem, Net};
use crate::refimpl;
use crate::wire::*;
use crate::{ensure, fail, with_value};

// ----------------------------------------------------------------------- C37

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C37 {
    /// A request made by its constructor; the server is the one to connect to.
    Request { key: KeyId, server: KeyId, body: Body, bare: bool },

    /// A response made by its constructor; the status is one of all of them.
    Response { key: KeyId, seed: u64, answer: Answer, bare: bool },
    Refusal { kind: u8, status: u8, reason: String, proof: Blob, key: KeyId },

    /// Record which has its own constructor.
    Record(Record),
    Token { date: u64, server: KeyId, client: KeyId },
    Driver { key: KeyId, info: InfoSpec, address: String },
    Defaults,
}

/// All statuses along with the codes which the protocol gives to them.
const STATUSES: [(ResponseStatus, u64); 9] = [
    (ResponseStatus::Success, 100),
    FAILURES[0], FAILURES[1], FAILURES[2], FAILURES[3], FAILURES[4], FAILURES[5], FAILURES[6], FAILURES[7],
];

fn c37_gen(src: &mut Src) -> C37 {
    match src.weighted(&[6, 5, 2, 5, 1, 1, 1]) {
        0 => C37::Request { key: key(src), server: key(src), body: Body::gen(src), bare: src.chance(1, 4) },
        1 => C37::Response { key: key(src), seed: seed(src), answer: Answer::gen(src), bare: src.chance(1, 4) },
        2 => C37::Refusal { kind: src.below(8) as u8, status: src.below(8) as u8, reason: text(src, 80), proof: blob(src, 200), key: key(src) },

        3 => C37::Record(loop {
            match Record::gen(src) {
                Record::Body(_) | Record::Answer(_) | Record::Request(_) | Record::Response(_) => continue,
                record => break record,
            }
        }),

        4 => C37::Token { date: num(src), server: key(src), client: key(src) },
        5 => C37::Driver { key: key(src), info: InfoSpec::gen(src), address: text(src, 60) },
        _ => C37::Defaults,
    }
}

fn document(value: &impl AsJson) -> Result<Json, Fail> {
    value.to_json().map_err(|err| Fail(format!("can't be serialised: {err}")))
}

fn says(what: &str, value: &impl AsJson, expected: &Json) -> Verdict {
    let json = document(value)?;

    ensure!(&json == expected, "{what} says {} instead of {}", short(&json.to_string()), short(&expected.to_string()));

    Ok(())
}

/// Check a certificate made now; its reference then says what it does.
fn certificate(what: &str, value: &ConnectionCertificate, client: KeyId, server: KeyId, from: u64, to: u64) -> Result<CertSpec, Fail> {
    let date = value.token.auth_date;
    let token = TokenSpec { date, server };

    ensure!((from..=to).contains(&date), "{what}: certificate made from {from} to {to} is dated {date}");

    ensure!(
        refimpl::verify(client, &refimpl::token_bytes(&token), &value.sign),
        "{what}: certificate {} isn't signed for the server by the client", short(value)
    );

    Ok(CertSpec { token, sign: SignSpec::Raw(Blob::Hex(hex(&value.sign))) })
}

/// Check the proof of a request and compare it whole with the reference.
fn proven<T: AsJson>(what: &str, inner: &Request<T>, document: Json, key: KeyId, body: Body) -> Verdict {
    let seed = inner.proof_seed;

    ensure!(seed >> 63 == 1, "{what}: seed {seed} isn't a long one");
    ensure!(refimpl::verify(key, &seed.to_be_bytes(), &inner.proof_sign), "{what}: {} isn't signed by its author", short(&document));

    let sign = SignSpec::Raw(Blob::Hex(hex(&inner.proof_sign)));
    let expected = request_json(&ReqSpec { key, seed, sign, body });

    ensure!(document == expected, "{what}: request says {} instead of {}", short(&document.to_string()), short(&expected.to_string()));

    Ok(())
}

fn certified(cert: &CertSpec) -> ConnectionCertificate {
    cert.build()
}

fn answered<T: AsJson>(what: &str, inner: &Response<T>, document: Json, key: KeyId, seed: u64, answer: &Answer) -> Verdict {
    let Response::Success { proof_sign, .. } = inner else { fail!("{what} is an error: {}", short(&document)) };

    ensure!(refimpl::verify(key, &seed.to_be_bytes(), proof_sign), "{what}: {} isn't signed over the seed {seed}", short(&document));
    ensure!(inner.standard() == 1 && inner.status() == ResponseStatus::Success, "{what}: header {} {:?}", inner.standard(), inner.status());

    let sign = SignSpec::Raw(Blob::Hex(hex(proof_sign)));
    let expected = response_json(&RespSpec { answer: answer.clone(), key, seed, sign, error: None });

    ensure!(document == expected, "{what} says {} instead of {}", short(&document.to_string()), short(&expected.to_string()));

    Ok(())
}

fn lookup_body(answer: &Answer) -> LookupResponseBody {
    match answer {
        Answer::Local { client, available } => LookupResponseBody::local(client.build(), *available),
        Answer::Remote { client, server, available } => LookupResponseBody::remote(client.build(), server.build(), *available),
        Answer::Hint { servers } => LookupResponseBody::hint(servers.iter().map(ServerSpec::build).collect::<Vec<_>>()),
        _ => unreachable!(),
    }
}

fn poll_body(messages: &[MessageInfoSpec], remaining: u64) -> PollResponseBody {
    PollResponseBody::new(messages.iter().map(MessageInfoSpec::build).collect::<Vec<_>>(), remaining)
}

fn c37_request(key: KeyId, server: KeyId, body: &Body, bare: bool, cx: &mut Cx) -> Verdict {
    let secret = secret(key);

    // Only the header is generic
    macro_rules! made {
        ($what:expr, $bodied:expr, $whole:expr, $body:expr) => {{
            let expected: Body = $body;

            if bare {
                let inner = $bodied;
                let inner = Request::new(&secret, inner);
                let document = document(&inner)?;
                proven($what, &inner, document, key, expected)
            } else {
                let whole = $whole;
                let document = document(&whole)?;
                proven($what, &whole.0, document, key, expected)
            }
        }};
    }

    match body {
        Body::Connect { cert, info } => {
            cx.label("connect request");

            let from = timestamp();

            if bare {
                let inner = ConnectRequestBody::new(&secret, public(server), info.build());
                let made = certificate("connect request's body", &inner.certificate, key, server, from, timestamp())?;

                says("connect request's body", &inner, &body_json(&Body::Connect { cert: made, info: info.clone() }))?;

                let inner = ConnectRequestBody::from_certificate(info.build(), certified(cert));

                return says("connect request's body with a certificate", &inner, &body_json(body));
            }

            let whole = ConnectRequest::new(&secret, public(server), info.build());
            let made = certificate("connect request", &whole.0.request.certificate, key, server, from, timestamp())?;

            proven("connect request", &whole.0, document(&whole)?, key, Body::Connect { cert: made, info: info.clone() })
        }

        Body::Disconnect => {
            cx.label("disconnect request");
            made!("disconnect request", DisconnectRequestBody::new(), DisconnectRequest::new(&secret), body.clone())
        }

        Body::AnnounceClient { client, server } => {
            cx.label("announce client request");
            made!("announce request", AnnounceRequestBody::client(client.build(), server.build()), AnnounceRequest::client(&secret, client.build(), server.build()), body.clone())
        }

        Body::AnnounceServer { server } => {
            cx.label("announce server request");
            made!("announce request", AnnounceRequestBody::server(server.build()), AnnounceRequest::server(&secret, server.build()), body.clone())
        }

        Body::Lookup { key: wanted, kind } => {
            cx.label("lookup request");
            made!(
                "lookup request",
                LookupRequestBody::new(public(*wanted), kind.map(client_type)),
                LookupRequest::new(&secret, public(*wanted), kind.map(client_type)),
                body.clone()
            )
        }

        Body::Send { sender, receiver, channel, message } => {
            cx.label("send request");
            made!(
                "send request",
                SendRequestBody::new(sender.build(), public(*receiver), channel, message.build()),
                SendRequest::new(&secret, sender.build(), public(*receiver), channel, message.build()),
                body.clone()
            )
        }

        Body::Poll { channel, limit } => {
            cx.label("poll request");
            made!("poll request", PollRequestBody::new(channel, *limit), PollRequest::new(&secret, channel, *limit), body.clone())
        }
    }
}

fn c37_response(key: KeyId, seed: u64, answer: &Answer, bare: bool, cx: &mut Cx) -> Verdict {
    let secret = secret(key);
    let ok = ResponseStatus::Success;

    macro_rules! made {
        ($what:expr, $body:expr, $whole:expr) => {{
            if bare {
                let inner = $body;
                says($what, &inner, &answer_json(answer))?;

                let inner = Response::success(ok, public(key), refimpl::sign(key, &seed.to_be_bytes()), inner);
                let document = document(&inner)?;
                answered($what, &inner, document, key, seed, answer)
            } else {
                let whole = $whole;
                let document = document(&whole)?;
                answered($what, &whole.0, document, key, seed, answer)
            }
        }};
    }

    cx.label("response");

    match answer {
        Answer::Connect => made!("connect response", ConnectResponseBody::new(), ConnectResponse::success(ok, &secret, seed)),
        Answer::Disconnect => made!("disconnect response", DisconnectResponseBody::new(), DisconnectResponse::success(ok, &secret, seed)),
        Answer::Announce => made!("announce response", AnnounceResponseBody::new(), AnnounceResponse::success(ok, &secret, seed)),
        Answer::Send => made!("send response", SendResponseBody::new(), SendResponse::success(ok, &secret, seed)),
        Answer::Poll { messages, remaining } => made!("poll response", poll_body(messages, *remaining), PollResponse::success(ok, &secret, seed, poll_body(messages, *remaining))),
        lookup => made!("lookup response", lookup_body(lookup), LookupResponse::success(ok, &secret, seed, lookup_body(lookup))),
    }
}

fn c37_refusal(kind: u8, status: u8, reason: &str, proof: &Blob, key: KeyId, cx: &mut Cx) -> Verdict {
    let (status, code) = FAILURES[status as usize % 8];
    let expected = json!({ "standard": 1, "status": code, "reason": reason });

    cx.label("error response");

    match kind % 8 {
        0 => says("refused connection", &ConnectResponse::error(status, reason), &expected),
        1 => says("refused disconnection", &DisconnectResponse::error(status, reason), &expected),
        2 => says("refused announcement", &AnnounceResponse::error(status, reason), &expected),
        3 => says("refused lookup", &LookupResponse::error(status, reason), &expected),
        4 => says("refused message", &SendResponse::error(status, reason), &expected),
        5 => says("refused poll", &PollResponse::error(status, reason), &expected),

        6 => {
            let made = Response::<String>::error(status, reason);

            ensure!(made.standard() == 1 && made.status() == status, "error's header: {} {:?}", made.standard(), made.status());
            says("error", &made, &expected)
        }

        _ => {
            // Proof and body of any kind are taken as they are
            let proof = proof.bytes();
            let made = Response::success(ResponseStatus::Success, public(key), proof.clone(), String::from(reason));

            says("response", &made, &json!({
                "standard": 1,
                "status": 100,
                "public_key": refimpl::public_b64(key),
                "proof": { "sign": refimpl::b64(&proof) },
                "response": reason
            }))
        }
    }
}

fn c37_record(record: &Record, cx: &mut Cx) -> Verdict {
    let name = record.name();
    let expected = record.reference();

    cx.label(name);

    fn info(spec: &InfoSpec) -> ClientInfo {
        ClientInfo::new(client_type(spec.kind), spec.address.as_ref())
    }

    fn client(spec: &ClientSpec) -> Client {
        Client::new(public(spec.key), spec.cert.build(), info(&spec.info))
    }

    fn server(spec: &ServerSpec) -> Server {
        Server::new(public(spec.key), &spec.address)
    }

    fn sender(spec: &SenderSpec) -> Sender {
        Sender::new(client(&spec.client), server(&spec.server))
    }

    fn message(spec: &MessageSpec) -> Message {
        let parts = spec.encoding.build();

        Message::new(&spec.content, &spec.sign, MessageEncoding::new(parts.encoding, parts.encryption, parts.compression))
    }

    match record {
        Record::Info(spec) => {
            says(name, &info(spec), &expected)?;

            let address = spec.address.clone().unwrap_or_default();

            for (kind, made) in [
                (0, ClientInfo::thin()),
                (1, ClientInfo::thick(&address)),
                (2, ClientInfo::server(&address)),
                (3, ClientInfo::file(&address)),
            ] {
                let address = if kind == 0 { None } else { Some(address.clone()) };

                says("client info of the type", &made, &info_json(&InfoSpec { kind, address }))?;
            }

            Ok(())
        }

        Record::Cert(spec) => {
            let server = spec.token.server;
            let author = match spec.sign { SignSpec::By(key) => key, _ => server };
            let from = timestamp();
            let made = ConnectionCertificate::new(&secret(author), public(server));
            let cert = certificate(name, &made, author, server, from, timestamp())?;

            says(name, &made, &cert_json(&cert))
        }

        Record::Client(spec) => says(name, &client(spec), &expected),
        Record::Server(spec) => says(name, &server(spec), &expected),
        Record::Sender(spec) => says(name, &sender(spec), &expected),
        Record::Message(spec) => says(name, &message(spec), &expected),

        Record::MessageInfo(spec) => {
            says(name, &MessageInfo::new(sender(&spec.sender), &spec.channel, message(&spec.message), spec.received_at), &expected)?;

            let from = timestamp();
            let made = MessageInfo::now(sender(&spec.sender), &spec.channel, message(&spec.message));

            ensure!((from..=timestamp()).contains(&made.received_at), "message received now is dated {}", made.received_at);
            says(name, &made, &message_info_json(&MessageInfoSpec { received_at: made.received_at, ..spec.clone() }))
        }

        Record::ServerInfo(spec) => {
            let made = InfoResponse::new(&secret(spec.key));

            ensure!(made.proof_seed >> 63 == 1, "server info's seed {} isn't a long one", made.proof_seed);
            ensure!(refimpl::verify(spec.key, &made.proof_seed.to_be_bytes(), &made.proof_sign), "server info isn't signed by the server: {}", short(&made));

            let sign = SignSpec::Raw(Blob::Hex(hex(&made.proof_sign)));

            says(name, &made, &Record::ServerInfo(ServerInfoSpec { key: spec.key, seed: made.proof_seed, sign }).reference())
        }

        Record::Clients(list) => says(name, &ClientsResponse::new(list.iter().map(client).collect::<Vec<_>>()), &expected),
        Record::Servers(list) => says(name, &ServersResponse::new(list.iter().map(server).collect::<Vec<_>>()), &expected),
        _ => Ok(()),
    }
}

fn c37_driver(key: KeyId, spec: &InfoSpec, address: &str, cx: &mut Cx) -> Verdict {
    cx.label("drivers");

    let driver = ClientDriver::new(spec.build(), secret(key));

    ensure!(driver.secret_key() == &secret(key), "client driver has another key");
    says("client driver's info", driver.info(), &info_json(spec))?;

    let thin = ClientDriver::thin(secret(key));

    ensure!(thin.secret_key() == &secret(key), "thin client driver has another key");
    says("thin client driver's info", thin.info(), &info_json(&InfoSpec { kind: 0, address: None }))?;

    let client = ClientMiddleware::new(Net::default(), driver.clone());

    ensure!(client.driver_ref() == &driver && *client.driver() == driver, "client middleware has another driver");

    let params = ServerParams { secret_key: secret(key), address: String::from(address) };
    let server = ServerDriver::new(Mem::default(), BfsRecursionTraversal, Mem::default(), params);
    let own = server.as_client();

    ensure!(server.params().secret_key == secret(key) && server.params().address == address, "server driver has other parameters");
    ensure!(own.secret_key() == &secret(key), "server as a client has another key");
    says("server as a client", own.info(), &info_json(&InfoSpec { kind: 2, address: Some(String::from(address)) }))
}

fn c37_run(case: &C37, cx: &mut Cx) -> Verdict {
    cx.exec();
    cx.nontrivial();

    match case {
        C37::Request { key, server, body, bare } => c37_request(*key, *server, body, *bare, cx),
        C37::Response { key, seed, answer, bare } => c37_response(*key, *seed, answer, *bare, cx),
        C37::Refusal { kind, status, reason, proof, key } => c37_refusal(*kind, *status, reason, proof, *key, cx),
        C37::Record(record) => c37_record(record, cx),

        C37::Token { date, server, client } => {
            cx.label("token");

            let token = ConnectionToken::new(*date, public(*server));

            ensure!(token.auth_date == *date && token.public_key == public(*server), "token of {date} is {}", short(&token));

            let bytes = token.to_bytes();
            let expected = refimpl::token_bytes(&TokenSpec { date: *date, server: *server });

            ensure!(bytes.as_slice() == expected.as_slice(), "token's bytes are {} instead of {}", hex(&bytes), hex(&expected));

            // The key is taken whatever it is, the client's own one too
            let from = timestamp();
            let made = ConnectionCertificate::new(&secret(*client), public(*server));

            certificate("certificate", &made, *client, *server, from, timestamp()).map(|_| ())
        }

        C37::Driver { key, info, address } => c37_driver(*key, info, address, cx),

        C37::Defaults => {
            cx.label("defaults");

            says("default client info", &ClientInfo::default(), &json!({ "type": "thin", "address": null }))?;
            ensure!(MessageEncoding::default().to_string() == "base64", "default encoding is {}", MessageEncoding::default());

            let (first, second) = (ClientDriver::random(), ClientDriver::random());

            ensure!(first.secret_key() != second.secret_key(), "random clients share a key");
            says("random client's info", first.info(), &json!({ "type": "thin", "address": null }))?;

            let (first, second) = (ServerParams::default(), ServerParams::default());

            ensure!(first.secret_key != second.secret_key, "default servers share a key");

            for (status, code) in STATUSES {
                ensure!(status.to_code() == code, "{status:?} has the code {}", status.to_code());
                ensure!(ResponseStatus::from_code(code) == Some(status), "{code} stands for {:?}", ResponseStatus::from_code(code));
                ensure!(status.is_success() == (code == 100), "{status:?} is taken for {}", status.is_success());
            }

            Ok(())
        }
    }
}

pub fn c37() -> Check {
    Def {
        id: "C37",
        level: "exploration",
        rule: "a constructor was given generated parts (all cases)",
        assumptions: &["the wall clock shows dates from 1970 on"],
        quick: 40_000,
        thorough: 1_000_000,
        shards: 8,
        gen: c37_gen,
        run: c37_run,
    }.build()
}

// ----------------------------------------------------------------------- C38

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C38 {
    /// A record and other ones of its type: each differs from it in one place or none.
    Records { record: Record, others: Vec<Record> },
    Keys { keys: Vec<KeyId> },
    Drivers { drivers: Vec<(KeyId, InfoSpec)>, servers: Vec<(KeyId, String)> },
}

/// Change one place of the description.
fn altered(src: &mut Src, record: &Record) -> Record {
    let Ok(json) = serde_json::to_value(record) else { return record.clone() };

    for _ in 0..8 {
        let mut changed = json.clone();
        let mut leaves = Vec::new();

        collect(&changed, &mut Vec::new(), &mut leaves);

        if leaves.is_empty() {
            break;
        }

        let path = leaves[src.usize(leaves.len())].clone();
        let Some(place) = path.iter().try_fold(&mut changed, |at, step| match step {
            Step::Key(key) => at.get_mut(key),
            Step::Index(i) => at.get_mut(i),
        }) else { continue };

        *place = match place.clone() {
            Json::String(text) => Json::from(match src.below(6) {
                0 => text + " ",
                1 => text.to_uppercase(),
                2 => text.chars().skip(1).collect(),
                3 => { let mut text = text; text.pop(); text }
                4 => format!("{text}{}", character(src)),
                _ => crate::gens::text(src, 20),
            }),

            Json::Number(n) => {
                let n = n.as_u64().unwrap_or(0);

                Json::from(match src.below(6) {
                    0 => n.wrapping_add(1),
                    1 => n.wrapping_sub(1),
                    2 => n ^ 1 << src.below(64),
                    3 if n < 100 => n + TWIN as u64,
                    4 => n ^ 1 << src.below(8),
                    _ => num(src) >> src.below(60),
                })
            }

            Json::Bool(b) => Json::from(!b),
            Json::Null => if src.bool() { Json::from("") } else { Json::from(src.below(4)) },

            Json::Array(mut list) => {
                match src.below(3) {
                    0 if list.len() > 1 => { let n = list.len(); list.swap(0, n - 1); }
                    1 if !list.is_empty() => { let item = list[0].clone(); list.push(item); }
                    _ => { list.pop(); }
                }

                Json::from(list)
            }

            other => other,
        };

        // Nothing shall become too large or differ from what may be
        if let Ok(record) = serde_json::from_value::<Record>(changed) {
            if !oversized(&record) && record.reference().to_string().len() < 100_000 {
                return record;
            }
        }
    }

    record.clone()
}

/// Lengths of blobs may become anything by chance.
fn oversized(record: &Record) -> bool {
    fn look(json: &Json) -> bool {
        match json {
            Json::Object(map) => map.iter().any(|(key, value)| matches!((key.as_str(), value.as_u64()), ("len", Some(5001..)) | ("times", Some(4..))) || look(value)),
            Json::Array(list) => list.iter().any(look),
            _ => false,
        }
    }

    serde_json::to_value(record).map_or(true, |json| look(&json))
}

#[derive(Clone)]
enum Step {
    Key(String),
    Index(usize),
}

fn collect(json: &Json, path: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match json {
        Json::Object(map) => for (key, value) in map {
            path.push(Step::Key(key.clone()));
            collect(value, path, out);
            path.pop();
        },

        Json::Array(list) => {
            out.push(path.clone());

            for (i, value) in list.iter().enumerate() {
                path.push(Step::Index(i));
                collect(value, path, out);
                path.pop();
            }
        }

        _ => out.push(path.clone()),
    }
}

fn c38_gen(src: &mut Src) -> C38 {
    match src.weighted(&[10, 2, 1]) {
        0 => {
            let record = loop {
                let record = Record::gen(src);

                if !oversized(&record) && record.reference().to_string().len() < 20_000 {
                    break record;
                }
            };

            let others = src.vec(1, 4, |src| if src.chance(1, 5) { record.clone() } else { altered(src, &record) });

            C38::Records { record, others }
        }

        1 => C38::Keys { keys: src.vec(2, 6, |src| if src.bool() { pool_key_or_twin(src, 3) } else { key(src) }) },

        _ => {
            let drivers = src.vec(2, 4, |src| (pool_key_or_twin(src, 3), InfoSpec { kind: src.below(4) as u8, address: if src.bool() { Some(text(src, 3)) } else { None } }));
            let servers = src.vec(2, 4, |src| (pool_key_or_twin(src, 3), text(src, 3)));

            C38::Drivers { drivers, servers }
        }
    }
}

fn hash_of(value: &impl Hash) -> u64 {
    let mut hasher = DefaultHasher::new();
    value.hash(&mut hasher);
    hasher.finish()
}

/// Compare a value with another one, which must be equal or not.
fn compare<T: PartialEq + Hash + Debug>(what: &str, a: &T, b: &T, equal: bool) -> Verdict {
    ensure!((a == b) == equal, "{what}: {} and {} are {}", short(a), short(b), if equal { "the same but not equal" } else { "equal but not the same" });
    ensure!((b == a) == equal, "{what}: {} and {} are compared otherwise in the other order", short(a), short(b));
    ensure!(!equal || hash_of(a) == hash_of(b), "{what}: hashes of the equal {} and {} differ", short(a), short(b));

    Ok(())
}

/// Value whose type is forgotten.
trait Same {
    fn any(&self) -> &dyn Any;
    fn compare(&self, what: &str, other: &dyn Same, equal: bool) -> Verdict;
    fn own(&self, what: &str) -> Verdict;
    fn distinct(&self, all: &[Box<dyn Same>]) -> Option<usize>;
}

impl<T: PartialEq + Eq + Hash + Clone + Debug + 'static> Same for T {
    fn any(&self) -> &dyn Any {
        self
    }

    fn compare(&self, what: &str, other: &dyn Same, equal: bool) -> Verdict {
        match other.any().downcast_ref::<T>() {
            Some(other) => compare(what, self, other, equal),
            None => Ok(()),
        }
    }

    fn own(&self, what: &str) -> Verdict {
        compare(what, self, &self.clone(), true)?;
        compare(what, self, self, true)
    }

    fn distinct(&self, all: &[Box<dyn Same>]) -> Option<usize> {
        let mut set = HashSet::new();

        for value in all {
            set.insert((**value).any().downcast_ref::<T>()?.clone());
        }

        Some(set.len())
    }
}

fn boxed(record: &Record) -> Box<dyn Same> {
    with_value!(record, v => Box::new(v) as Box<dyn Same>)
}

fn c38_run(case: &C38, cx: &mut Cx) -> Verdict {
    match case {
        C38::Records { record, others } => {
            let name = record.name();

            cx.label(name);

            let all = std::iter::once(record).chain(others).collect::<Vec<_>>();
            let references = all.iter().map(|r| r.reference().to_string()).collect::<Vec<_>>();
            let values = all.iter().map(|r| boxed(r)).collect::<Vec<_>>();

            for (i, value) in values.iter().enumerate() {
                (**value).own(name)?;

                for (j, other) in values.iter().enumerate().skip(i + 1) {
                    let equal = references[i] == references[j];

                    cx.label_if(equal, "equal ones");
                    cx.label_if(!equal, "different ones");
                    cx.exec();

                    (**value).compare(name, &**other, equal)?;
                }
            }

            let expected = references.iter().collect::<BTreeSet<_>>().len();

            if expected > 1 {
                cx.nontrivial();
            }

            // Some changes make other types of them
            if let Some(distinct) = (*values[0]).distinct(&values) {
                ensure!(distinct == expected, "{name}: {distinct} of {} are distinct instead of {expected}", all.len());
            }

            Ok(())
        }

        C38::Keys { keys } => {
            cx.label("keys");

            let mut publics = HashMap::new();
            let mut secrets = HashMap::new();

            for a in keys {
                for b in keys {
                    let equal = scalar(*a) == scalar(*b);

                    compare("public keys", &public(*a), &public(*b), equal)?;
                    compare("secret keys", &secret(*a), &secret(*b), equal)?;
                    cx.exec();
                }

                // As read from bytes
                let read = PublicKey::from_bytes(refimpl::public_bytes(*a)).map_err(|err| Fail(format!("key {a} is refused: {err}")))?;
                compare("public key and its bytes", &public(*a), &read, true)?;

                let read = SecretKey::deserialize(scalar(*a)).map_err(|err| Fail(format!("key {a} is refused: {err}")))?;
                compare("secret key and its bytes", &secret(*a), &read, true)?;

                *publics.entry(public(*a)).or_insert(0) += 1;
                *secrets.entry(secret(*a)).or_insert(0) += 1;
            }

            for a in keys {
                let expected = keys.iter().filter(|b| scalar(**b) == scalar(*a)).count();

                ensure!(publics.get(&public(*a)) == Some(&expected), "public key {a}: {:?} are counted instead of {expected}", publics.get(&public(*a)));
                ensure!(secrets.get(&secret(*a)) == Some(&expected), "secret key {a}: {:?} are counted instead of {expected}", secrets.get(&secret(*a)));
            }

            if publics.len() > 1 {
                cx.nontrivial();
            }

            Ok(())
        }

        C38::Drivers { drivers, servers } => {
            cx.label("drivers");
            cx.nontrivial();

            for (a, info_a) in drivers {
                for (b, info_b) in drivers {
                    let equal = a == b && info_json(info_a) == info_json(info_b);

                    compare("client drivers", &ClientDriver::new(info_a.build(), secret(*a)), &ClientDriver::new(info_b.build(), secret(*b)), equal)?;
                    cx.exec();
                }
            }

            for (a, address_a) in servers {
                for (b, address_b) in servers {
                    let params = |key, address: &String| ServerParams { secret_key: secret(key), address: address.clone() };

                    compare("server parameters", &params(*a, address_a), &params(*b, address_b), a == b && address_a == address_b)?;
                    cx.exec();
                }
            }

            Ok(())
        }
    }
}

pub fn c38() -> Check {
    Def {
        id: "C38",
        level: "exploration",
        rule: "values which differ were compared",
        assumptions: &["values of one type are the same if their documents (bytes of keys) are"],
        quick: 30_000,
        thorough: 800_000,
        shards: 8,
        gen: c38_gen,
        run: c38_run,
    }.build()
}
