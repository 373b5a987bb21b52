//! C25, C26, C27, C29: clients, traversal and addresses over scripted servers.

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use hyperborealib::drivers::server::ServerParams;
use hyperborealib::prelude::*;

use crate::checks::proof::Forgery;
use crate::dict;
use crate::engine::*;
use crate::gens::*;
use crate::net::*;
use crate::net::Outcome;
use crate::refimpl;
use crate::wire::*;
use crate::{ensure, fail};

type Client_ = ClientMiddleware<Net>;
type Connected = ConnectedClientMiddleware<Net>;

fn b64(key: KeyId) -> String {
    refimpl::public_b64(key)
}

fn respond(answer: Answer, key: KeyId, seed: u64, sign: SignSpec) -> Json {
    response_json(&RespSpec { answer, key, seed, sign, error: None })
}

fn error_json(status: u8, reason: &str) -> Json {
    json!({ "standard": 1, "status": FAILURES[status as usize % 8].1, "reason": reason })
}

/// Documents that are no reply to anything.
const MALFORMED: u64 = 12;

fn malformed(kind: u8, genuine: &Json) -> Json {
    let mut json = genuine.clone();

    let drop = |json: &mut Json, field: &str| {
        if let Some(map) = json.as_object_mut() { map.remove(field); }
    };

    match kind as u64 % MALFORMED {
        0 => return Json::Null,
        1 => return json!({}),
        2 => return json!([]),
        3 => return json!("ok"),
        4 => return json!(100),
        5 => return json!([genuine]),
        6 => { drop(&mut json, "standard"); json["status"] = Json::Null; }
        7 => { drop(&mut json, "proof"); drop(&mut json, "status"); drop(&mut json, "servers"); }
        8 => { drop(&mut json, "public_key"); drop(&mut json, "server"); drop(&mut json, "servers"); }
        9 => { json["proof"] = json!("none"); drop(&mut json, "servers"); }
        10 => { json["standard"] = json!("one"); }
        _ => { json["response"] = json!(7); json["status"] = json!("ok"); json["proof"] = json!([]); json["servers"] = json!("none"); }
    }

    json
}

fn seed_of(request: Option<&Json>) -> u64 {
    request.and_then(|r| r["proof"]["seed"].as_u64()).unwrap_or_default()
}

fn connect_client(cx: &Cx, net: &Net, info: &InfoSpec, client: KeyId, server: KeyId, address: &str) -> Connected {
    let middleware = Client_::new(net.clone(), ClientDriver::new(info.build(), secret(client)));

    cx.block_on(middleware.connect_to(address, public(server)))
        .unwrap_or_else(|err| infra(format!("can't connect to a genuine server: {err}")))
}

// ----------------------------------------------------------------------- C27

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Ask {
    Info,
    Connect,
    ConnectTo { server: KeyId },
    Disconnect,
    Announce { elsewhere: bool },
    Send { elsewhere: bool, receiver: KeyId, channel: String, message: MessageSpec },
    Poll { channel: String, limit: Option<u64> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Change {
    Drop(Vec<u64>),
    Set(Vec<u64>, Json),
    /// Copy of another part of some reply.
    Swap(Vec<u64>, Vec<u64>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Given {
    /// Success with a proof as described, named as made by the key.
    Success { key: KeyId, proof: Forgery, change: Option<Change> },
    /// Whatever was given to a request before.
    Replay(u32),
    Error { status: u8, reason: String },
    Malformed(u8),
    NoBody,
    Dead,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step27 {
    ask: Ask,
    /// Replies to the operation's requests.
    given: Vec<Given>,
    messages: Vec<MessageInfoSpec>,
    remaining: u64,
    seed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C27 {
    client: KeyId,
    info: InfoSpec,
    server: KeyId,
    steps: Vec<Step27>,
}

fn odd_json(src: &mut Src) -> Json {
    match src.below(10) {
        0 => Json::Null,
        1 => json!(100),
        2 => json!(src.below(400)),
        3 => json!(num(src)),
        4 => json!(text(src, 20)),
        5 => json!(b64(key(src))),
        6 => json!(refimpl::b64(&blob(src, 80).bytes())),
        7 => json!({}),
        8 => json!([]),
        _ => json!(src.bool()),
    }
}

fn given(src: &mut Src, expected: KeyId) -> Given {
    match src.weighted(&[10, 8, 4, 3, 3, 2, 1, 1]) {
        0 => Given::Success { key: expected, proof: Forgery::genuine(expected), change: None },

        1 => {
            let key = if src.chance(1, 4) { key(src) } else { expected };
            let by = if src.bool() { key } else { expected };
            Given::Success { key, proof: Forgery::gen(src, by), change: None }
        }

        2 => {
            // Another server's genuine reply
            let key = key(src);
            Given::Success { key, proof: Forgery::genuine(key), change: None }
        }

        3 => {
            let steps = |src: &mut Src| src.vec(1, 4, |src| src.below(8));

            let change = match src.below(3) {
                0 => Change::Drop(steps(src)),
                1 => { let at = steps(src); Change::Set(at, odd_json(src)) }
                _ => { let at = steps(src); Change::Swap(at, steps(src)) }
            };

            Given::Success { key: expected, proof: Forgery::genuine(expected), change: Some(change) }
        }

        4 => Given::Replay(src.below(8) as u32),
        5 => Given::Error { status: src.below(8) as u8, reason: text(src, 20) },
        6 => Given::Malformed(src.below(MALFORMED) as u8),
        _ => if src.bool() { Given::NoBody } else { Given::Dead },
    }
}

const HOME: &str = "home.test:8001";
const OTHER: &str = "other.test:8002";

fn c27_gen(src: &mut Src) -> C27 {
    let (client, server) = (key(src), key(src));

    let steps = src.vec(1, 7, |src| {
        let ask = match src.weighted(&[3, 4, 5, 4, 4, 4, 6]) {
            0 => Ask::Info,
            1 => Ask::Connect,
            2 => Ask::ConnectTo { server: if src.chance(1, 4) { key(src) } else { server } },
            3 => Ask::Disconnect,
            4 => Ask::Announce { elsewhere: src.bool() },
            5 => Ask::Send { elsewhere: src.bool(), receiver: key(src), channel: text(src, 20), message: MessageSpec::gen(src, 40) },
            _ => Ask::Poll { channel: text(src, 20), limit: if src.bool() { Some(num(src)) } else { None } },
        };

        let expected = match &ask { Ask::ConnectTo { server } => *server, _ => server };
        let n = if matches!(ask, Ask::Connect) { 2 } else { 1 };

        Step27 {
            ask,
            given: (0..n).map(|i| if i + 1 < n && src.bool() { Given::Success { key: expected, proof: Forgery::genuine(expected), change: None } } else { given(src, expected) }).collect(),
            messages: src.vec(0, 3, MessageInfoSpec::gen),
            remaining: num(src),
            seed: if src.chance(1, 8) { num(src) } else { long_seed(src) },
        }
    });

    C27 { client, info: InfoSpec::gen(src), server, steps }
}

/// Part of the document; every step leads into some member.
fn follow<'a>(json: &'a mut Json, at: &[u64]) -> &'a mut Json {
    let mut json = json;

    for step in at {
        let n = match json {
            Json::Object(map) => map.len(),
            Json::Array(list) => list.len(),
            _ => 0,
        };

        if n == 0 {
            break;
        }

        let i = *step as usize % n;

        json = match json {
            Json::Object(map) => map.iter_mut().nth(i).unwrap().1,
            Json::Array(list) => &mut list[i],
            _ => unreachable!(),
        };
    }

    json
}

impl Change {
    fn apply(&self, mut json: Json) -> Json {
        match self {
            Change::Set(at, value) => *follow(&mut json, at) = value.clone(),

            Change::Drop(at) => {
                let (last, path) = at.split_last().unwrap_or((&0, &[]));
                let parent = follow(&mut json, path);

                match parent {
                    Json::Object(map) if !map.is_empty() => {
                        let key = map.keys().nth(*last as usize % map.len()).unwrap().clone();
                        map.remove(&key);
                    }

                    Json::Array(list) if !list.is_empty() => { let i = *last as usize % list.len(); list.remove(i); }
                    other => *other = Json::Null,
                }
            }

            Change::Swap(at, from) => {
                let value = follow(&mut json.clone(), from).clone();
                *follow(&mut json, at) = value;
            }
        }

        json
    }
}

/// What the server is told to do, and what it has done.
#[derive(Default)]
struct Stage {
    given: VecDeque<Given>,
    messages: Vec<MessageInfoSpec>,
    remaining: u64,
    seed: u64,
    past: Vec<Json>,
    /// (path, request, well-formed reply) of the current operation.
    done: Vec<(String, Option<Json>, Option<Json>)>,
}

fn act_as_server(stage: &Mutex<Stage>, path: &str, request: Option<&Json>) -> Outcome {
    let mut stage = stage.lock().unwrap();
    let given = stage.given.pop_front().unwrap_or(Given::Dead);
    let seed = if request.is_some() { seed_of(request) } else { stage.seed };

    let success = |key: KeyId, sign: Vec<u8>| {
        let sign = SignSpec::Raw(Blob::Hex(hex(&sign)));

        let answer = match path {
            "/api/v1/info" => return Record::ServerInfo(ServerInfoSpec { key, seed, sign }).reference(),
            "/api/v1/poll" => Answer::Poll { messages: stage.messages.clone(), remaining: stage.remaining },
            _ => Answer::Connect,
        };

        respond(answer, key, seed, sign)
    };

    let json = match &given {
        Given::Success { key, proof, change } => {
            let json = success(*key, proof.sign(&seed.to_be_bytes()));

            Some(match change {
                Some(change) => change.apply(json),
                None => json,
            })
        }

        Given::Replay(i) => stage.past.get(*i as usize % stage.past.len().max(1)).cloned(),
        Given::Error { status, reason } => Some(error_json(*status, reason)),
        Given::Malformed(kind) => Some(malformed(*kind, &success(0, refimpl::sign(0, &seed.to_be_bytes())))),
        Given::NoBody | Given::Dead => None,
    };

    let sound = json.clone().filter(|_| !matches!(given, Given::Malformed(_)));
    stage.done.push((path.to_string(), request.cloned(), sound));

    match json {
        Some(json) => {
            stage.past.push(json.clone());
            Outcome::Json(json)
        }

        None if matches!(given, Given::NoBody) => Outcome::NoBody,
        None => Outcome::Refused,
    }
}

/// Is it a success with a proof over the seed, by the expected server?
fn proves(reply: Option<&Json>, request: Option<&Json>, expected: Option<KeyId>) -> bool {
    let Some(reply) = reply else { return false };

    let (key, seed) = match request {
        Some(request) => (&reply["public_key"], request["proof"]["seed"].as_u64()),
        None => (&reply["server"]["public_key"], reply["proof"]["seed"].as_u64()),
    };

    let (Some(key), Some(seed)) = (key.as_str().and_then(refimpl::unb64), seed) else { return false };
    let sign = reply["proof"]["sign"].as_str().and_then(refimpl::unb64).unwrap_or_default();

    seed >> 63 == 1
        && (request.is_none() || reply["status"] == 100)
        && expected.is_none_or(|expected| key == refimpl::public_bytes(expected))
        && refimpl::verify_bytes(&key, &seed.to_be_bytes(), &sign)
}

fn judge_acceptance(what: &str, accepted: bool, proven: bool, strict: bool, detail: &dyn Fn() -> String) -> Verdict {
    ensure!(!accepted || proven, "{what} accepts a reply that doesn't prove its server: {}", detail());
    ensure!(accepted || !proven || !strict, "{what} refuses the server's genuine reply: {}", detail());

    Ok(())
}

fn c27_run(case: &C27, cx: &mut Cx) -> Verdict {
    let net = Net::new(200);
    let stage = Arc::new(Mutex::new(Stage::default()));

    for address in [HOME, OTHER] {
        let stage = stage.clone();
        net.script(address, move |_, path, request| act_as_server(&stage, path, request));
    }

    // Start connected
    stage.lock().unwrap().given = VecDeque::from([Given::Success { key: case.server, proof: Forgery::genuine(case.server), change: None }]);

    let mut connected = connect_client(cx, &net, &case.info, case.client, case.server, HOME);
    let thin = connected.disconnected();
    let mut server = case.server;
    let (mut accepted_any, mut refused_any) = (false, false);

    for step in &case.steps {
        {
            let mut stage = stage.lock().unwrap();
            stage.given = step.given.iter().cloned().collect();
            stage.messages = step.messages.clone();
            stage.remaining = step.remaining;
            stage.seed = step.seed;
            stage.done.clear();
        }

        cx.exec();

        let altered = step.given.iter().any(|g| matches!(g, Given::Success { change: Some(_), .. } | Given::Replay(_)));
        let strict = !altered;

        macro_rules! done { () => { std::mem::take(&mut stage.lock().unwrap().done) } }

        let accepted = match &step.ask {
            Ask::Info => {
                let result = cx.block_on(thin.get_info(HOME));
                let done = done!();
                let [(_, request, reply)] = &done[..] else { fail!("requesting server info makes {} requests", done.len()) };
                let proven = proves(reply.as_ref(), request.as_ref(), None);

                judge_acceptance("get_info", result.is_ok(), proven, strict, &|| short(reply))?;

                if let (Ok(info), Some(reply)) = (&result, reply) {
                    ensure!(reply["server"]["public_key"] == json!(info.public_key.to_base64()), "get_info returns another key than {}", short(reply));
                }

                result.is_ok()
            }

            Ask::Connect | Ask::ConnectTo { .. } => {
                let result = match &step.ask {
                    Ask::ConnectTo { server } => cx.block_on(thin.connect_to(HOME, public(*server))),
                    _ => cx.block_on(thin.connect(HOME)),
                };

                let done = done!();

                let (expected, connection) = match (&step.ask, &done[..]) {
                    (Ask::ConnectTo { server }, [connection]) => (Some(b64(*server)), Some(connection)),

                    (Ask::Connect, [(_, request, reply), rest @ ..]) if rest.len() < 2 => {
                        let proven = proves(reply.as_ref(), request.as_ref(), None);

                        judge_acceptance("connect", !rest.is_empty(), proven, strict, &|| short(reply))?;

                        (reply.as_ref().and_then(|r| r["server"]["public_key"].as_str()).map(String::from), rest.first())
                    }

                    _ => fail!("connecting makes {} requests", done.len()),
                };

                let Some((_, request, reply)) = connection else {
                    ensure!(result.is_err(), "connected without a connect request");
                    refused_any = true;
                    continue;
                };

                let named = reply.as_ref().and_then(|r| r["public_key"].as_str());
                let proven = proves(reply.as_ref(), request.as_ref(), None) && named == expected.as_deref();

                judge_acceptance("connect", result.is_ok(), proven, strict, &|| short(reply))?;

                if let Ok(client) = &result {
                    let expected = expected.unwrap_or_default();
                    let sent = request.clone().unwrap_or_default();
                    let at = client.connected_server();
                    let cert = client.connection_certificate();

                    ensure!(at.public_key.to_base64() == expected && at.address == HOME, "connected to {} instead of {expected} at {HOME}", short(at));

                    let cert_json = json!({ "token": refimpl::b64(&[&cert.token.auth_date.to_be_bytes()[..], &cert.token.public_key.to_bytes()[..]].concat()), "sign": refimpl::b64(&cert.sign) });

                    ensure!(sent["request"]["certificate"] == cert_json, "the client holds another certificate {} than it sent: {}", short(cert), short(&sent));
                    ensure!(cert.token.public_key.to_base64() == expected, "certificate is made for another server");

                    let token = [&cert.token.auth_date.to_be_bytes()[..], &cert.token.public_key.to_bytes()[..]].concat();
                    ensure!(refimpl::verify(case.client, &token, &cert.sign), "certificate isn't signed by the client");

                    let own = client.get_client();
                    ensure!(own.public_key == public(case.client) && own.info == case.info.build() && &own.certificate == cert, "the client presents itself as {}", short(&own));
                }

                let ok = result.is_ok();

                if let Ok(client) = result {
                    server = (0..400).chain(65532..=65535).find(|k| public(*k) == client.connected_server().public_key).unwrap_or_else(|| infra("unknown server key"));
                    connected = client;
                }

                ok
            }

            Ask::Disconnect => {
                let result = cx.block_on(connected.clone().disconnect());
                let done = done!();
                let [(path, request, reply)] = &done[..] else { fail!("disconnecting makes {} requests", done.len()) };
                ensure!(path == "/api/v1/disconnect", "disconnecting requests {path}");

                judge_acceptance("disconnect", result.is_ok(), proves(reply.as_ref(), request.as_ref(), Some(server)), strict, &|| short(reply))?;

                if let Ok(client) = &result {
                    ensure!(client.driver_ref().secret_key() == &secret(case.client), "another client is left after disconnecting");
                }

                result.is_ok()
            }

            Ask::Announce { elsewhere } => {
                let result = cx.block_on(connected.announce(format!("http://{}", if *elsewhere { OTHER } else { HOME })));
                let done = done!();
                let [(_, request, reply)] = &done[..] else { fail!("announcing makes {} requests", done.len()) };

                judge_acceptance("announce", result.is_ok(), proves(reply.as_ref(), request.as_ref(), None), strict, &|| short(reply))?;

                result.is_ok()
            }

            Ask::Send { elsewhere, receiver, channel, message } => {
                let uri = format!("http://{}", if *elsewhere { OTHER } else { HOME });
                let result = cx.block_on(connected.send(uri, public(*receiver), channel, message.build()));
                let done = done!();
                let [(_, request, reply)] = &done[..] else { fail!("sending makes {} requests", done.len()) };

                judge_acceptance("send", result.is_ok(), proves(reply.as_ref(), request.as_ref(), None), strict, &|| short(reply))?;

                result.is_ok()
            }

            Ask::Poll { channel, limit } => {
                let result = cx.block_on(connected.poll(channel, *limit));
                let done = done!();
                let [(_, request, reply)] = &done[..] else { fail!("polling makes {} requests", done.len()) };

                judge_acceptance("poll", result.is_ok(), proves(reply.as_ref(), request.as_ref(), Some(server)), strict, &|| short(reply))?;

                if let (Ok((messages, remaining)), true) = (&result, strict) {
                    let genuine = step.messages.iter().map(MessageInfoSpec::build).collect::<Vec<_>>();

                    ensure!(messages == &genuine, "poll returns {} of the server's {}", short(messages), short(&genuine));
                    ensure!(*remaining == step.remaining, "poll returns {remaining} remaining messages of the server's {}", step.remaining);
                }

                result.is_ok()
            }
        };

        accepted_any |= accepted;
        refused_any |= !accepted;

        cx.label(match &step.ask {
            Ask::Info => "info",
            Ask::Connect | Ask::ConnectTo { .. } => "connect",
            Ask::Disconnect => "disconnect",
            Ask::Announce { .. } => "announce",
            Ask::Send { .. } => "send",
            Ask::Poll { .. } => "poll",
        });

        for given in &step.given {
            cx.label(match given {
                Given::Success { change: Some(_), .. } => "altered reply",
                Given::Success { .. } => "success reply",
                Given::Replay(_) => "replayed reply",
                Given::Error { .. } => "error reply",
                Given::Malformed(_) => "malformed reply",
                Given::NoBody | Given::Dead => "no reply",
            });
        }
    }

    if accepted_any && refused_any {
        cx.nontrivial();
    }

    Ok(())
}

pub fn c27() -> Check {
    Def {
        id: "C27",
        level: "exploration",
        rule: "history with accepted and refused replies",
        assumptions: &["HTTP status codes aren't varied (the adaptors' check does)", "randomly altered and replayed replies are judged one way: accepted ones must prove their server"],
        quick: 12_000,
        thorough: 400_000,
        shards: 8,
        gen: c27_gen,
        run: c27_run,
    }.build()
}

// ----------------------------------------------------------- scripted networks

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Conduct {
    Honest,
    /// Success with a wrong proof.
    Forged(Forgery),
    Error { status: u8, reason: String },
    Malformed(u8),
    NoBody,
    Dead,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Known {
    client: ClientSpec,
    /// Where the client is; here if none.
    server: Option<ServerSpec>,
    available: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Peer {
    key: KeyId,
    conduct: Conduct,
    known: Vec<Known>,
    /// Key and number of the address.
    hints: Vec<(KeyId, u16)>,
}

/// Names, and hosts with several servers.
fn address(n: u16) -> String {
    let port = 8000 + n as u32;

    match n % 8 {
        2 | 3 => format!("shared.test:{port}"),
        4 => format!("10.0.0.1:{port}"),
        5 => format!("[2001:db8::1]:{port}"),
        6 => format!("s{n}.test"),
        7 => format!("{n}.shared.test:8000"),
        _ => format!("s{n}.test:{port}"),
    }
}

const WANTED: KeyId = 0;

fn conduct(src: &mut Src, honest: u64) -> Conduct {
    match src.weighted(&[honest, 3, 1, 1, 1, 1]) {
        0 => Conduct::Honest,
        1 => { let k = key(src); Conduct::Forged(Forgery::gen(src, k)) }
        2 => Conduct::Error { status: src.below(8) as u8, reason: text(src, 20) },
        3 => Conduct::Malformed(src.below(MALFORMED) as u8),
        4 => Conduct::NoBody,
        _ => Conduct::Dead,
    }
}

/// Some servers, mentioning each other.
fn peers(src: &mut Src, max: usize, knowing: (u64, u64)) -> Vec<Peer> {
    let n = match dict::count(src, 9, 1200) {
        Some(n) => n as usize,
        None if src.chance(1, 300) => 256 + src.usize(30),
        None => 1 + src.upto(max - 1),
    };
    let shape = src.below(5);
    // Searches of large graphs should get far at times
    let honest = if n > 40 && src.chance(3, 4) { 20_000 } else if src.chance(1, 10) { 1 } else { 12 };
    let knowing = if n > 40 && src.chance(3, 4) { (knowing.0, knowing.1 * 100) } else { knowing };

    (0..n).map(|i| {
        // A few addresses share a key: servers that have moved
        let key = 100 + if src.chance(1, 5) { src.below(n as u64) } else { i as u64 } as KeyId;

        let hint = |src: &mut Src| {
            // Also addresses nobody listens at
            let at = src.below(n as u64 + 1) as u16;
            (if src.chance(1, 6) { 100 + src.below(n as u64 + 2) as KeyId } else { 100 + at as KeyId }, at)
        };

        let mut hints = match shape {
            // Chain, cycle, star, anything
            0 => vec![(100 + i as KeyId + 1, i as u16 + 1)],
            1 => vec![(100 + ((i + 1) % n) as KeyId, ((i + 1) % n) as u16)],
            2 => if i == 0 { (0..n).map(|j| (100 + j as KeyId, j as u16)).collect() } else { vec![(100, 0)] },
            _ => vec![],
        };

        if shape > 2 || src.chance(1, 3) {
            hints.extend(src.vec(0, 4, hint));
        }

        let known = if src.chance(knowing.0, knowing.1 * if i == 0 { 2 } else { 1 }) {
            src.vec(1, 2, |src| {
                let client = if src.chance(3, 4) { WANTED } else { 1 };
                let kind = if src.chance(2, 3) { src.below(2) } else { src.below(4) } as u8;
                let at = 100 + src.below(6) as KeyId;

                Known {
                    client: ClientSpec { key: client, cert: CertSpec::genuine(client, at, date(src)), info: InfoSpec { kind, address: if src.chance(1, 3) { Some(address(src.below(9) as u16)) } else { None } } },
                    server: if src.bool() { Some(ServerSpec { key: at, address: if src.bool() { address(src.below(9) as u16) } else { text(src, 20) } }) } else { None },
                    available: src.chance(3, 4),
                }
            })
        } else {
            vec![]
        };

        Peer { key, conduct: conduct(src, if i == 0 { 80 } else { honest }), known, hints }
    }).collect()
}

impl Peer {
    fn find(&self, key: &str, kind: Option<&str>) -> Option<&Known> {
        self.known.iter().find(|k| b64(k.client.key) == key && kind.is_none_or(|kind| TYPE_NAMES[k.client.info.kind as usize % 4] == kind))
    }

    fn hinted(&self) -> Vec<ServerSpec> {
        self.hints.iter().map(|(key, at)| ServerSpec { key: *key, address: address(*at) }).collect()
    }

    fn answer(&self, key: &str, kind: Option<&str>) -> Answer {
        match self.find(key, kind) {
            Some(Known { client, server: Some(server), available }) => Answer::Remote { client: client.clone(), server: server.clone(), available: *available },
            Some(Known { client, server: None, available }) => Answer::Local { client: client.clone(), available: *available },
            None => Answer::Hint { servers: self.hinted() },
        }
    }

    /// Does the server answer with a valid signature?
    fn sound(&self, seed: u64) -> bool {
        match &self.conduct {
            Conduct::Honest => true,
            Conduct::Forged(forgery) => refimpl::verify(self.key, &seed.to_be_bytes(), &forgery.sign(&seed.to_be_bytes())),
            _ => false,
        }
    }

    fn react(&self, path: &str, request: Option<&Json>, connecting: bool) -> Outcome {
        let seed = seed_of(request);

        if path == "/api/v1/connect" && connecting {
            return Outcome::Json(respond(Answer::Connect, self.key, seed, SignSpec::By(self.key)));
        }

        let answer = match (path, request) {
            ("/api/v1/lookup", Some(request)) => {
                // Real servers check their clients' requests too
                let by = request["public_key"].as_str().and_then(refimpl::unb64).unwrap_or_default();
                let sign = request["proof"]["sign"].as_str().and_then(refimpl::unb64).unwrap_or_default();

                if seed >> 63 != 1 || !refimpl::verify_bytes(&by, &seed.to_be_bytes(), &sign) {
                    return Outcome::Json(error_json(2, "invalid request"));
                }

                self.answer(request["request"]["public_key"].as_str().unwrap_or_default(), request["request"]["type"].as_str())
            }

            ("/api/v1/servers", None) => {
                let json = Record::Servers(self.hinted()).reference();

                return match &self.conduct {
                    Conduct::Malformed(kind) => Outcome::Json(malformed(*kind, &json)),
                    Conduct::Error { status, reason } => Outcome::Json(error_json(*status, reason)),
                    Conduct::NoBody => Outcome::NoBody,
                    Conduct::Dead => Outcome::Refused,
                    _ => Outcome::Json(json),
                };
            }

            _ => return Outcome::Refused,
        };

        let json = respond(answer, self.key, seed, SignSpec::By(self.key));

        match &self.conduct {
            Conduct::Honest => Outcome::Json(json),

            Conduct::Forged(forgery) => {
                let mut json = json;
                json["proof"]["sign"] = json!(refimpl::b64(&forgery.sign(&seed.to_be_bytes())));
                Outcome::Json(json)
            }

            Conduct::Error { status, reason } => Outcome::Json(error_json(*status, reason)),
            Conduct::Malformed(kind) => Outcome::Json(malformed(*kind, &json)),
            Conduct::NoBody => Outcome::NoBody,
            Conduct::Dead => Outcome::Refused,
        }
    }
}

fn publish(net: &Net, peers: &[Peer]) {
    for (i, peer) in peers.iter().enumerate() {
        let peer = peer.clone();
        net.script(&address(i as u16), move |_, path, request| peer.react(path, request, i == 0));
    }
}

/// Records reachable from the first server, by numbers of addresses.
fn reachable(peers: &[Peer], key: KeyId, kind: Option<u8>, seed: u64) -> (Vec<(Client, Server, bool)>, usize) {
    let (mut queue, mut seen, mut found) = (VecDeque::from([0u16]), BTreeSet::new(), vec![]);
    let kind = kind.map(|k| TYPE_NAMES[k as usize % 4]);

    while let Some(at) = queue.pop_front() {
        if !seen.insert(at) { continue; }
        let Some(peer) = peers.get(at as usize).filter(|p| p.sound(seed)) else { continue };

        match peer.find(&b64(key), kind) {
            Some(known) => {
                let server = known.server.clone().unwrap_or(ServerSpec { key: peer.key, address: address(at) });
                found.push((known.client.build(), server.build(), known.available));
            }

            None => queue.extend(peer.hints.iter().map(|h| h.1)),
        }
    }

    (found, seen.len())
}

fn seed_in_log(net: &Net) -> u64 {
    net.log().iter().rev()
        .find(|e| e.url.ends_with("/lookup"))
        .and_then(|e| e.request.as_deref().and_then(|r| serde_json::from_str::<Json>(r).ok()))
        .map(|r| seed_of(Some(&r)))
        .unwrap_or_default()
}

// ----------------------------------------------------------------------- C25

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C25 {
    client: KeyId,
    peers: Vec<Peer>,
    kinds: Vec<Option<u8>>,
}

fn c25_gen(src: &mut Src) -> C25 {
    let max = if src.chance(1, 200) { 240 } else if src.chance(1, 8) { 40 } else { 9 };
    let rate = 1 + src.below(7);

    C25 {
        client: 2 + src.below(3) as KeyId,
        peers: peers(src, max, (rate, 8)),
        kinds: src.vec(1, 3, |src| if src.bool() { None } else { Some(if src.chance(2, 3) { src.below(2) } else { src.below(4) } as u8) }),
    }
}

fn c25_run(case: &C25, cx: &mut Cx) -> Verdict {
    let net = Net::new(case.peers.len() as u64 * 4 + 16);
    publish(&net, &case.peers);

    let client = connect_client(cx, &net, &InfoSpec { kind: 0, address: None }, case.client, case.peers[0].key, &address(0));

    for kind in &case.kinds {
        net.reset();
        cx.exec();

        let result = bounded("lookup", || cx.block_on(client.lookup(public(WANTED), kind.map(client_type))))?;
        let seed = seed_in_log(&net);
        let (records, visited) = reachable(&case.peers, WANTED, *kind, seed);
        let answers = case.peers[0].sound(seed);

        match &result {
            Ok(Some(record)) => ensure!(records.contains(record), "lookup of type {kind:?} returns {}, reachable records: {}", short(record), short(&records)),
            Ok(None) => ensure!(records.is_empty(), "lookup of type {kind:?} returns nothing, reachable records: {}", short(&records)),
            Err(err) => ensure!(!answers, "lookup of type {kind:?} fails though the connected server answers: {err}"),
        }

        cx.label_if(!answers, "connected server doesn't answer");
        cx.label_if(records.len() > 1, "several records");
        cx.label_if(matches!(result, Ok(Some(_))), "found");
        cx.label_if(matches!(result, Ok(None)), "not found");
        cx.label_if(visited > 9, "long search");

        if answers && visited > 2 && net.log().len() > 2 && case.peers.iter().any(|p| !matches!(p.conduct, Conduct::Honest)) {
            cx.nontrivial();
        }
    }

    Ok(())
}

pub fn c25() -> Check {
    Def {
        id: "C25",
        level: "exploration",
        rule: "search over several servers, in a network with some that fail or lie",
        assumptions: &["servers with valid signatures answer about the client that was asked for", "if the connected server doesn't answer, an error or nothing may be returned"],
        quick: 16_000,
        thorough: 500_000,
        shards: 8,
        gen: c25_gen,
        run: c25_run,
    }.build()
}

// ----------------------------------------------------------------------- C26

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C26 {
    stored: bool,
    own: KeyId,
    peers: Vec<Peer>,
    initial: Vec<(KeyId, u16)>,
    rounds: u8,
}

fn c26_gen(src: &mut Src) -> C26 {
    let max = if src.chance(1, 300) { 240 } else if src.chance(1, 8) { 40 } else { 9 };
    let peers = peers(src, max, (0, 1));
    let n = peers.len() as u64;

    C26 {
        stored: src.chance(1, 4),
        own: 100 + src.below(n + 3) as KeyId,
        initial: src.vec(0, 3, |src| {
            let at = src.below(n + 1) as u16;
            (if src.chance(1, 6) { 100 + src.below(n + 2) as KeyId } else { 100 + at as KeyId }, at)
        }),
        peers,
        rounds: 1 + src.below(2) as u8,
    }
}

fn traverse<R: Router + Sync + Send, I: MessagesInbox + Sync + Send>(case: &C26, cx: &Cx, net: &Net, router: R, inbox: I) -> Result<Vec<Server>, Fail> {
    let text = |what: &str, err: &dyn std::fmt::Display| Fail(format!("{what}: {err}"));

    for (key, at) in &case.initial {
        cx.block_on(router.index_server(Server { public_key: public(*key), address: address(*at) })).map_err(|e| text("can't index a server", &e))?;
    }

    let params = ServerParams { secret_key: secret(case.own), address: String::from("own.test:1") };
    let driver = ServerDriver::new(router, BfsRecursionTraversal, inbox, params);

    for _ in 0..case.rounds {
        bounded("traversal", || cx.block_on(driver.traversal().traverse(net.clone(), &driver)))?;
    }

    cx.block_on(driver.router().servers()).map_err(|e| text("can't list the servers", &e))
}

fn c26_run(case: &C26, cx: &mut Cx) -> Verdict {
    let rounds = case.rounds as u64;
    let net = Net::new((case.peers.len() as u64 * 4 + 16) * rounds);
    publish(&net, &case.peers);

    let servers = if case.stored {
        let dir = cx.fresh_dir();
        let (router, inbox) = (open_router(cx, &dir), open_inbox(cx, &dir));
        let servers = traverse(case, cx, &net, router, inbox);
        cx.remove_dir(&dir);
        servers?
    } else {
        let mem = Mem::default();
        traverse(case, cx, &net, mem.clone(), mem)?
    };

    // Servers of the initial list, with later ones replacing earlier ones
    let initial = case.initial.iter().copied().collect::<BTreeMap<_, _>>();
    let mut mentioned = BTreeMap::<KeyId, BTreeSet<u16>>::new();
    let (mut queue, mut seen) = (VecDeque::new(), BTreeSet::new());

    for (key, at) in &initial {
        mentioned.entry(*key).or_default().insert(*at);
        queue.push_back(*at);
    }

    while let Some(at) = queue.pop_front() {
        if !seen.insert(at) { continue; }

        let Some(peer) = case.peers.get(at as usize) else { continue };

        // The lists aren't signed
        if !matches!(peer.conduct, Conduct::Honest | Conduct::Forged(_)) { continue; }

        for (key, at) in &peer.hints {
            mentioned.entry(*key).or_default().insert(*at);
            queue.push_back(*at);
        }
    }

    let table = unique("the list of servers", servers.into_iter().map(|s| (s.public_key.to_base64(), s)).collect())?;

    for (key, places) in &mentioned {
        match table.get(&b64(*key)) {
            Some(server) => ensure!(places.iter().any(|at| address(*at) == server.address), "server {key} is indexed at {}, mentioned ones: {places:?}", server.address),
            None => ensure!(*key == case.own, "server {key} is reachable but not indexed"),
        }
    }

    for (key, server) in &table {
        ensure!(mentioned.keys().any(|k| &b64(*k) == key), "nobody mentioned the indexed server {}", short(server));
    }

    cx.label(if case.stored { "stored table" } else { "table in memory" });
    cx.label_if(rounds > 1, "traversed again");
    cx.label_if(case.initial.is_empty(), "nothing known");
    cx.label_if(seen.len() > 9, "long traversal");
    cx.label_if(mentioned.values().any(|places| places.len() > 1), "moved servers");

    if seen.len() > 2 && case.peers.iter().any(|p| !matches!(p.conduct, Conduct::Honest)) {
        cx.nontrivial();
    }

    Ok(())
}

pub fn c26() -> Check {
    Def {
        id: "C26",
        level: "exploration",
        rule: "traversal of several servers, in a network with some that fail",
        assumptions: &["a key mentioned at several addresses may be held with any of them", "the server's own record may be left out"],
        quick: 60_000,
        thorough: 3_000_000,
        shards: 8,
        gen: c26_gen,
        run: c26_run,
    }.build()
}

// ----------------------------------------------------------------------- C29

#[derive(Serialize, Deserialize, Clone, Debug)]
enum KeyText {
    Good(KeyId),
    Bad { key: KeyId, kind: u8, number: u64 },
}

impl KeyText {
    fn text(&self) -> String {
        match self {
            KeyText::Good(key) => b64(*key),

            KeyText::Bad { key, kind, number } => {
                let good = b64(*key);
                let mut bytes = refimpl::public_bytes(*key).to_vec();

                match kind % 10 {
                    0 => String::new(),
                    1 => good[..good.len() - 1 - *number as usize % (good.len() - 1)].to_string(),
                    2 => format!("{good}AAAA"),
                    3 => format!(" {good}"),
                    4 => format!("{good}/"),
                    5 => { bytes[0] = [0, 1, 6, 7, 8, 255][*number as usize % 6]; refimpl::b64(&bytes) }
                    6 => { bytes.pop(); refimpl::b64(&bytes) }
                    7 => { bytes.push(*number as u8); refimpl::b64(&bytes) }
                    // Not a coordinate
                    8 => { bytes[1..].fill(0xff); refimpl::b64(&bytes) }
                    _ => hex(&bytes),
                }
            }
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Uri {
    Client { scheme: String, prefix: Option<String>, key: KeyText },
    Web { secure: bool, rest: String },
    Plain(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C29 {
    uri: Uri,
    /// Network to resolve in.
    peers: Vec<Peer>,
}

fn rest(src: &mut Src) -> String {
    let mut out = match src.below(6) {
        0 => String::from("example.org"),
        1 => format!("127.0.0.1:{}", src.below(70_000)),
        2 => String::from("[::1]:8080"),
        3 => String::from("user:pass@host"),
        4 => text(src, 12),
        _ => String::new(),
    };

    for _ in 0..src.below(4) {
        out.push_str(*src.pick(&["/", "/path", "?q=1", "&x=y", "#frag", "://", "http://", "hyperborea://", "thin:", "%20", ":80", "//", " ", "="]));
    }

    out
}

fn c29_gen(src: &mut Src) -> C29 {
    let uri = match src.weighted(&[8, 3, 1]) {
        0 => {
            let scheme = *src.pick(&["hyperborea", "hyp", "hyperborea", "hyp", "hyperborea-client", "hyp-client", "hyperborea-server", "hyp-server", "hyperborea-file", "hyp-file"]);
            let typed = scheme.contains('-');

            let prefix = match src.weighted(&[4, if typed { 0 } else { 5 }, 1]) {
                0 => None,
                1 => Some(src.pick(&TYPE_NAMES).to_string()),
                _ => Some(src.pick(&["Thin", "client", "thin:thin", "", "any", "file ", "http"]).to_string()),
            };

            let number = src.word();

            Uri::Client {
                scheme: scheme.to_string(),
                prefix,
                key: match src.weighted(&[6, 4, 3]) {
                    0 => KeyText::Good(WANTED),
                    1 => KeyText::Good(key(src)),
                    _ => KeyText::Bad { key: key(src), kind: src.below(10) as u8, number },
                },
            }
        }

        1 => Uri::Web { secure: src.bool(), rest: rest(src) },
        _ => {
            let mut text = rest(src);
            while text.contains("://") { text = text.replace("://", ":/"); }
            Uri::Plain(text)
        }
    };

    C29 { uri, peers: peers(src, 4, (4, 5)) }
}

/// Key and type, if the address is a right one of a client.
fn denoted(scheme: &str, prefix: Option<&str>, key: &KeyText) -> Option<(KeyId, Option<u8>)> {
    let KeyText::Good(key) = key else { return None };

    let by_scheme = match scheme.split_once('-').map(|s| s.1) {
        None => None,
        Some("client") => Some(0),
        Some("server") => Some(2),
        Some("file") => Some(3),
        Some(_) => return None,
    };

    match prefix {
        None => Some((*key, by_scheme)),
        Some(_) if by_scheme.is_some() => None,
        Some(prefix) => TYPE_NAMES.iter().position(|t| *t == prefix).map(|t| (*key, Some(t as u8))),
    }
}

fn c29_run(case: &C29, cx: &mut Cx) -> Verdict {
    let net = Net::new(case.peers.len() as u64 * 4 + 100);
    publish(&net, &case.peers);

    let client = connect_client(cx, &net, &InfoSpec { kind: 0, address: None }, 2, case.peers[0].key, &address(0));
    net.reset();

    let resolve = |cx: &mut Cx, uri: &str| {
        cx.exec();
        bounded("resolution", || cx.block_on(resolve_uri(uri, &client)))
    };

    match &case.uri {
        Uri::Client { scheme, prefix, key } => {
            let prefix = prefix.as_deref();
            let uri = format!("{scheme}://{}{}", prefix.map(|p| format!("{p}:")).unwrap_or_default(), key.text());
            let parsed = parse_uri(&uri);

            let Some((key, kind)) = denoted(scheme, prefix, key) else {
                cx.label("invalid client address");
                ensure!(parsed.is_err(), "{uri:?} isn't an address but parses to {}", short(&parsed));

                let resolved = resolve(cx, &uri)?;
                ensure!(resolved.is_err(), "{uri:?} isn't an address but resolves to {}", short(&resolved));

                return Ok(());
            };

            match &parsed {
                Ok(Address::Hyperborea { public_key, client_type: parsed }) => {
                    ensure!(public_key == &public(key), "{uri:?} parses to another key");
                    ensure!(*parsed == kind.map(client_type), "{uri:?} parses to the type {parsed:?}");
                }

                other => fail!("{uri:?} parses to {}", short(other)),
            }

            let resolved = resolve(cx, &uri)?;
            let seed = seed_in_log(&net);
            let (records, _) = reachable(&case.peers, key, kind, seed);

            match &resolved {
                Ok(endpoint) => ensure!(
                    records.iter().any(|(_, server, _)| &format!("http://{}", server.address) == endpoint),
                    "{uri:?} resolves to {endpoint:?}, found: {}", short(&records)
                ),

                Err(err) => ensure!(records.is_empty(), "{uri:?} isn't resolved ({err}), found: {}", short(&records)),
            }

            cx.label(if resolved.is_ok() { "client found" } else { "client not found" });
            cx.label_if(kind.is_some(), "with a type");
            cx.nontrivial();
        }

        Uri::Web { secure, rest } => {
            let uri = format!("http{}://{rest}", if *secure { "s" } else { "" });
            let parsed = parse_uri(&uri);

            match &parsed {
                Ok(Address::Http { address }) if !secure => ensure!(address == rest, "{uri:?} parses to {address:?}"),
                Ok(Address::Https { address }) if *secure => ensure!(address == rest, "{uri:?} parses to {address:?}"),
                other => fail!("{uri:?} parses to {}", short(other)),
            }

            match resolve(cx, &uri)? {
                Ok(endpoint) => ensure!(endpoint == uri, "{uri:?} resolves to {endpoint:?}"),
                Err(err) => fail!("{uri:?} isn't resolved: {err}"),
            }

            cx.label("web address");
            cx.label_if(rest.contains("://"), "further separators");

            if !rest.chars().all(|c| c.is_ascii_alphanumeric() || c == '.') {
                cx.nontrivial();
            }
        }

        Uri::Plain(text) => {
            let parsed = parse_uri(text);
            ensure!(parsed.as_ref().is_ok_and(|a| a == &Address::Raw(text.clone())), "{text:?} parses to {}", short(&parsed));
            cx.label("no scheme");
        }
    }

    Ok(())
}

pub fn c29() -> Check {
    Def {
        id: "C29",
        level: "exploration",
        rule: "valid client address, or web address with more than a host name",
        assumptions: &["unknown schemes and the resolution of addresses without a scheme aren't judged"],
        quick: 20_000,
        thorough: 600_000,
        shards: 8,
        gen: c29_gen,
        run: c29_run,
    }.build()
}
