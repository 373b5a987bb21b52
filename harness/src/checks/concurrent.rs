//! C35: requests served at once; C36: calls made at once.

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::pin::pin;
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use hyperborealib::http::client::{HttpClient, Response as HttpResponse};
use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;

use crate::engine::*;
use crate::gens::*;
use crate::net::{Net, TestServer, Holdings, BoxError, Outcome};
use crate::shim::{Kind, Sched};
use crate::wire::*;
use crate::{ensure, fail, refimpl};

use super::server::*;

// ----------------------------------------------------------------------- C35

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C35 {
    before: Vec<ReqSpec>,
    /// Served at once.
    batch: Vec<ReqSpec>,
    order: Vec<u8>,
}

fn c35_gen(src: &mut Src) -> C35 {
    let never = (0, 1);
    let n = src.upto(6);
    let before = (0..n).map(|i| request(src, i as u64, never)).collect::<Vec<_>>();

    let count = 2 + src.upto(2);
    // Requests of the batch tend to be about the same things
    let key = src.below(3) as KeyId;
    let about = channel(src);
    let mut batch = Vec::<ReqSpec>::new();

    for i in 0..count {
        if i > 0 && src.chance(1, 12) {
            batch.push(batch[src.usize(i)].clone());
            continue;
        }

        let forge = if src.chance(1, 8) { (1, 2) } else { never };
        let mut r = request(src, 10 + i as u64, forge);

        if forge == never && src.chance(3, 4) {
            let own = match &r.body {
                Body::Connect { .. } | Body::Disconnect | Body::Poll { .. } => key,
                _ => r.key,
            };

            if let Body::Connect { cert, .. } = &mut r.body {
                *cert = CertSpec::genuine(key, SERVER, cert.token.date);
            }

            match &mut r.body {
                Body::AnnounceClient { client, server } => {
                    client.cert = CertSpec::genuine(key, server.key, client.cert.token.date);
                    client.key = key;
                }

                Body::Lookup { key: target, .. } => *target = key,
                Body::Send { receiver, channel, .. } => { *receiver = key; *channel = about.clone(); }
                Body::Poll { channel, .. } => *channel = about.clone(),
                _ => (),
            }

            r.key = own;
            r.sign = SignSpec::By(own);
        }

        batch.push(r);
    }

    C35 { before, batch, order: src.vec(0, 60, |src| src.below(4) as u8) }
}

/// Let the schedule decide about each poll of the future.
pub async fn stepwise<T>(sched: &Sched, op: usize, future: impl Future<Output = T>) -> T {
    let mut future = pin!(future);

    std::future::poll_fn(move |cx| {
        sched.gate(op, Kind::Read);
        future.as_mut().poll(cx)
    }).await
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }

    permutations(n - 1).into_iter()
        .flat_map(|rest| (0..n).map(move |at| {
            let mut all = rest.clone();
            all.insert(at, n - 1);
            all
        }))
        .collect()
}

/// Records the batch may leave or show, per table.
fn judge_lookup_at_once(r: &ReqSpec, json: &Json, before: &Holdings, batch: &[ReqSpec]) -> Verdict {
    let Body::Lookup { key: target, kind } = &r.body else { return Ok(()) };

    let touched = |key: KeyId| batch.iter().any(|r| match &r.body {
        Body::Connect { .. } | Body::Disconnect => r.key == key,
        Body::AnnounceClient { client, .. } => client.key == key,
        _ => false,
    });

    let disconnected = |key: KeyId| batch.iter().any(|r| matches!(r.body, Body::Disconnect) && r.key == key);

    let response = LookupResponse::from_json(json).map_err(|e| Fail(e.to_string()))?;
    let Response::Success { response, .. } = response.0 else { fail!("success is an error") };

    // Whatever is written or removed meanwhile may or may not be seen
    let mut known = before.clone();

    for r in batch {
        match &r.body {
            Body::AnnounceServer { server } => { known.servers.insert(b64(server.key), server.build()); }
            Body::Disconnect => { known.servers.remove(&b64(r.key)); }
            _ => (),
        }
    }

    let changing = batch.iter()
        .filter_map(|r| match &r.body {
            Body::AnnounceServer { server } => Some(b64(server.key)),
            Body::Disconnect => Some(b64(r.key)),
            _ => None,
        })
        .collect::<BTreeSet<_>>();

    let fits = |client: &Client| kind.is_none_or(|k| client.info.client_type == client_type(k));

    let locals = before.local.get(&b64(*target)).cloned().into_iter()
        .chain(batch.iter().filter(|r| r.key == *target).filter_map(|r| match &r.body {
            Body::Connect { cert, info } => Some(Client { public_key: public(r.key), certificate: cert.build(), info: info.build() }),
            _ => None,
        }))
        .collect::<Vec<_>>();

    let remotes = before.remote.get(&b64(*target)).cloned().into_iter()
        .chain(batch.iter().filter_map(|r| match &r.body {
            Body::AnnounceClient { client, server } if client.key == *target => Some((client.build(), server.build())),
            _ => None,
        }))
        .collect::<Vec<_>>();

    match &response {
        LookupResponseBody::Hint { servers } => {
            if !touched(*target) {
                ensure!(!before.local.get(&b64(*target)).is_some_and(fits) && !before.remote.get(&b64(*target)).is_some_and(|r| fits(&r.0)),
                    "lookup gives hints though the client is known all the time");
            }

            let always_local = before.local.contains_key(&b64(*target)) && locals.iter().all(fits);
            let always_remote = before.remote.contains_key(&b64(*target)) && remotes.iter().all(|r| fits(&r.0));

            ensure!(disconnected(*target) || !(always_local || always_remote), "lookup gives hints though the client is known all the time");

            for server in servers {
                let key = server.public_key.to_base64();

                let possible = before.servers.get(&key) == Some(server)
                    || batch.iter().any(|r| matches!(&r.body, Body::AnnounceServer { server: s } if &s.build() == server));

                ensure!(possible, "lookup hints {} which was never announced", short(server));
            }

            for (key, server) in &before.servers {
                ensure!(changing.contains(key) || servers.iter().filter(|s| s == &server).count() == 1, "lookup doesn't hint {} once though it's known all the time", short(server));
            }
        }

        _ if !touched(*target) => judge_lookup(&response, before, *target, *kind)?,

        LookupResponseBody::Local { client, .. } => {
            ensure!(locals.contains(client) && fits(client), "lookup gives the local record {} which was never there or of another type", short(client));
        }

        LookupResponseBody::Remote { client, server, .. } => {
            ensure!(remotes.contains(&(client.clone(), server.clone())) && fits(client), "lookup gives the announced record {} which was never there or of another type", short(client));
        }
    }

    Ok(())
}

fn c35_run(case: &C35, cx: &mut Cx) -> Verdict {
    let server = TestServer::new(cx, SERVER, "127.0.0.1:8000", true, Net::new(1000));

    for r in &case.before {
        let reply = server.post(cx, path(&r.body), request_json(r).to_string());
        judge_reply(&reply, &show(r), SERVER, r.seed)?;
    }

    let before = server.holdings(cx, &everyone(), &channels())?;
    let sched = Sched::new(case.batch.len());

    let replies = std::thread::scope(|scope| {
        let handles = case.batch.iter().enumerate().map(|(i, r)| {
            let slot = cx.slot(i);
            let sched = sched.clone();
            let routes = server.routes.clone();

            scope.spawn(move || {
                crate::gens::set_salt(sched.salt);

                let body = request_json(r).to_string();
                let call = routes.call("POST", path(&r.body), Some(body));

                run_gated(&slot, &sched, i, stepwise(&sched, i, call))
            })
        }).collect::<Vec<_>>();

        let mut n = 0;

        sched.drive(|waiting| {
            let choice = case.order.get(n).copied().unwrap_or(0) as usize % waiting.len();
            n += 1;
            choice
        });

        handles.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });

    cx.exec();

    let mut genuines = vec![];

    for (i, (r, reply)) in case.batch.iter().zip(replies).enumerate() {
        let reply = match reply {
            Ok(reply) => reply?,
            Err(_) => infra("thread"),
        };

        let what = format!("{} (number {i} of {} at once)", show(r), case.batch.len());
        let (success, json) = judge_reply(&reply, &what, SERVER, r.seed)?;

        if !genuine(r, SERVER) {
            ensure!(!success, "{what} is forged but succeeds");
            cx.label("forged one among them");
            continue;
        }

        // Announcement may be older than what is known
        let outdated = match &r.body {
            Body::AnnounceClient { client, .. } => {
                let date = client.cert.token.date;

                before.remote.get(&b64(client.key)).is_some_and(|old| old.0.certificate.token.auth_date > date)
                    || case.batch.iter().any(|r| matches!(&r.body, Body::AnnounceClient { client: other, .. } if other.key == client.key && other.cert.token.date > date))
            }
            _ => false,
        };

        ensure!(success || outdated, "{what} is answered with an error: {json}");
        genuines.push((r, json));
    }

    let batch = genuines.iter().map(|(r, _)| (*r).clone()).collect::<Vec<_>>();

    for (r, json) in &genuines {
        judge_lookup_at_once(r, json, &before, &batch).map_err(|Fail(text)| Fail(format!("{} at once with others: {text}", show(r))))?;
    }

    // Each record and each queue must be what serving the requests in some order leaves,
    // and what polls tell must come from the same order
    let after = server.holdings(cx, &everyone(), &channels())?;

    let orders = permutations(batch.len()).into_iter()
        .map(|order| {
            let mut state = before.clone();
            let mut wrong = BTreeMap::<(String, String), String>::new();

            for i in order {
                let (r, json) = &genuines[i];

                if let Body::Poll { channel, .. } = &r.body {
                    if let Err(Fail(text)) = judge_content(json, r, &state) {
                        wrong.entry((b64(r.key), channel.clone())).or_insert(text);
                    }
                }

                apply(&mut state, r);
            }

            (state, wrong)
        })
        .collect::<Vec<_>>();

    macro_rules! part {
        ($field:ident, $name:literal) => {
            let keys = after.$field.keys().chain(before.$field.keys()).chain(orders.iter().flat_map(|o| o.0.$field.keys())).cloned().collect::<BTreeSet<_>>();

            for key in keys {
                let actual = after.$field.get(&key);

                ensure!(
                    orders.iter().any(|(state, _)| state.$field.get(&key) == actual),
                    "after requests served at once {} of {key:?} is {} which no order of them leaves: {}", $name, short(&actual), names(&batch)
                );
            }
        };
    }

    part!(local, "the connected client");
    part!(remote, "the announced client");
    part!(servers, "the server");

    let queues = after.inbox.keys().chain(orders.iter().flat_map(|o| o.0.inbox.keys().chain(o.1.keys()))).cloned().collect::<BTreeSet<_>>();

    for queue in queues {
        let actual = after.inbox.get(&queue);
        let fitting = orders.iter().filter(|(state, _)| state.inbox.get(&queue) == actual).collect::<Vec<_>>();

        ensure!(!fitting.is_empty(), "after requests served at once the queue {queue:?} has {} messages which no order of them leaves: {}", actual.map_or(0, |q| q.len()), names(&batch));

        if let Some((_, wrong)) = fitting.iter().find(|(_, wrong)| wrong.contains_key(&queue)) {
            ensure!(
                fitting.iter().any(|(_, wrong)| !wrong.contains_key(&queue)),
                "what requests served at once tell about the queue {queue:?} fits no order of them ({}): {}", wrong[&queue], names(&batch)
            );
        }
    }

    // Some two of them are about the same
    let subject = |r: &ReqSpec| match &r.body {
        Body::Connect { .. } | Body::Disconnect => b64(r.key),
        Body::AnnounceClient { client, .. } => b64(client.key),
        Body::AnnounceServer { server } => b64(server.key),
        Body::Lookup { key, .. } => b64(*key),
        Body::Send { receiver, channel, .. } => format!("{} {channel}", b64(*receiver)),
        Body::Poll { channel, .. } => format!("{} {channel}", b64(r.key)),
    };

    if batch.iter().map(subject).collect::<BTreeSet<_>>().len() < batch.len() {
        cx.nontrivial();
    }

    for r in &batch {
        cx.label(match r.body {
            Body::Connect { .. } => "connect",
            Body::Disconnect => "disconnect",
            Body::AnnounceClient { .. } | Body::AnnounceServer { .. } => "announce",
            Body::Lookup { .. } => "lookup",
            Body::Send { .. } => "send",
            Body::Poll { .. } => "poll",
        });
    }

    server.close(cx);

    Ok(())
}

fn names(batch: &[ReqSpec]) -> String {
    batch.iter().map(show).collect::<Vec<_>>().join(", ")
}

pub fn c35() -> Check {
    Def {
        id: "C35",
        level: "exploration",
        rule: "at least two of the genuine requests served at once are about the same client, server or queue",
        assumptions: &[
            "a disconnection may clear the client's records one after another",
            "a lookup may see any state of what's changed at the same time, each record on its own",
            "schedules at the granularity of file operations and of polls of the handlers",
        ],
        quick: 4_000,
        thorough: 60_000,
        shards: 8,
        gen: c35_gen,
        run: c35_run,
    }.build()
}

// ----------------------------------------------------------------------- C36

/// One call of some connected client.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Call {
    Info,
    Clients,
    Servers,
    Connect,
    Disconnect,
    Announce,
    Lookup { hints: u8, found: bool },
    Send,
    Poll { messages: u8, remaining: u64 },
}

/// What the server does with requests of a call.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Fate {
    Genuine,
    /// Proof over another seed.
    OtherSeed,
    /// Success of another server.
    OtherServer,
    Error,
    Dead,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C36 {
    /// Who calls, at which server, what, and what comes of it.
    calls: Vec<(u8, u8, Call, Fate)>,
    /// Pauses before and after requests.
    pauses: Vec<u8>,
}

const FIRST: KeyId = 100;
const MARK: u64 = 1_700_000_000;

fn c36_gen(src: &mut Src) -> C36 {
    let calls = src.vec(2, 8, |src| {
        let call = match src.weighted(&[2, 1, 1, 2, 2, 2, 4, 3, 4]) {
            0 => Call::Info,
            1 => Call::Clients,
            2 => Call::Servers,
            3 => Call::Connect,
            4 => Call::Disconnect,
            5 => Call::Announce,
            6 => Call::Lookup { hints: src.below(3) as u8, found: src.chance(3, 4) },
            7 => Call::Send,
            _ => Call::Poll { messages: src.below(3) as u8, remaining: num(src) },
        };

        let fate = [Fate::Genuine, Fate::OtherSeed, Fate::OtherServer, Fate::Error, Fate::Dead][src.weighted(&[12, 2, 2, 2, 1])];

        (src.below(2) as u8, src.below(2) as u8, call, fate)
    });

    C36 { calls, pauses: src.vec(0, 40, |src| src.below(6) as u8) }
}

/// Network whose requests take a while.
#[derive(Clone)]
struct Slow {
    net: Net,
    pauses: Arc<Mutex<VecDeque<u8>>>,
}

impl Slow {
    async fn pause(&self) {
        let n = self.pauses.lock().unwrap().pop_front().unwrap_or(0);

        for _ in 0..n {
            tokio::task::yield_now().await;
        }
    }
}

#[async_trait::async_trait]
impl HttpClient for Slow {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, BoxError> {
        self.pause().await;
        let result = self.net.get(url).await;
        self.pause().await;
        result
    }

    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, BoxError> {
        self.pause().await;
        let result = self.net.post(url, body).await;
        self.pause().await;
        result
    }
}

fn client_of(call: usize) -> Client {
    let key = 40 + call as KeyId;

    ClientSpec { key, cert: CertSpec::genuine(key, FIRST, MARK + call as u64), info: InfoSpec { kind: 0, address: None } }.build()
}

fn server_of(call: usize) -> ServerSpec {
    ServerSpec { key: 140 + call as KeyId, address: format!("known-{call}.test:8000") }
}

fn letter(call: usize, n: usize) -> MessageInfoSpec {
    MessageInfoSpec {
        sender: SenderSpec {
            client: ClientSpec { key: 40, cert: CertSpec::genuine(40, FIRST, MARK), info: InfoSpec { kind: 0, address: None } },
            server: server_of(call),
        },
        channel: format!("channel {call}"),
        message: MessageSpec { content: format!("{call} {n}"), sign: String::new(), encoding: EncSpec { encryption: 0, compression: 0 } },
        received_at: MARK + n as u64,
    }
}

/// Address of the call's own requests; those of connections go to the home of the client.
fn address(call: usize, server: u8) -> String {
    format!("call-{call}.server-{server}.test:8000")
}

fn home(server: u8) -> String {
    format!("home-{server}.test:8000")
}

fn answer_call(case: &C36, call: usize, server: u8, hop: u8, path: &str, request: Option<&Json>) -> Outcome {
    let (_, _, kind, fate) = &case.calls[call];
    let key = FIRST + server as KeyId;

    match (path, fate) {
        (_, Fate::Dead) => return Outcome::Refused,

        ("/api/v1/info", _) => {
            let seed = 1 << 63 | call as u64;
            let signed = if matches!((kind, fate), (Call::Info, Fate::OtherSeed | Fate::OtherServer | Fate::Error)) { seed + 1 } else { seed };
            let sign = SignSpec::Raw(Blob::Hex(hex(&refimpl::sign(key, &signed.to_be_bytes()))));

            return Outcome::Json(Record::ServerInfo(ServerInfoSpec { key, seed, sign }).reference());
        }

        ("/api/v1/clients", _) => return Outcome::Json(ClientsResponse::new(vec![client_of(call)]).to_json().unwrap_or_else(|_| infra("clients"))),
        ("/api/v1/servers", _) => return Outcome::Json(ServersResponse::new(vec![server_of(call).build()]).to_json().unwrap_or_else(|_| infra("servers"))),

        (_, Fate::Error) => return Outcome::Json(json!({ "standard": 1, "status": FAILURES[0].1, "reason": format!("call {call}") })),
        _ => (),
    }

    let seed = request.and_then(|r| r["proof"]["seed"].as_u64()).unwrap_or_default();
    let signed = if *fate == Fate::OtherSeed { seed ^ 1 } else { seed };
    let signer = if *fate == Fate::OtherServer { 300 } else { key };

    let answer = match (path, kind) {
        ("/api/v1/connect", _) => Answer::Connect,
        ("/api/v1/disconnect", _) => Answer::Disconnect,
        ("/api/v1/announce", _) => Answer::Announce,
        ("/api/v1/send", _) => Answer::Send,

        ("/api/v1/lookup", Call::Lookup { hints, found }) => {
            if hop < *hints {
                Answer::Hint { servers: vec![ServerSpec { key: FIRST + server as KeyId, address: hop_address(call, server, hop + 1) }] }
            } else if *found {
                let key = 40 + call as KeyId;
                let cert = CertSpec::genuine(key, FIRST, MARK + call as u64);

                Answer::Remote { client: ClientSpec { key, cert, info: InfoSpec { kind: 0, address: None } }, server: server_of(call), available: call % 2 == 0 }
            } else {
                Answer::Hint { servers: vec![] }
            }
        }

        ("/api/v1/poll", Call::Poll { messages, remaining }) => Answer::Poll {
            messages: (0..*messages as usize).map(|n| letter(call, n)).collect(),
            remaining: *remaining,
        },

        _ => return Outcome::Refused,
    };

    let sign = SignSpec::Raw(Blob::Hex(hex(&refimpl::sign(signer, &signed.to_be_bytes()))));

    Outcome::Json(response_json(&RespSpec { answer, key: signer, seed, sign, error: None }))
}

fn hop_address(call: usize, server: u8, hop: u8) -> String {
    if hop == 0 { address(call, server) } else { format!("hop-{hop}.{}", address(call, server)) }
}

/// Which call has the request to the home server come from?
fn caller(case: &C36, server: u8, path: &str, request: &Json) -> Option<usize> {
    case.calls.iter().enumerate().position(|(n, (who, at, kind, _))| *at == server && match (path, kind) {
        ("/api/v1/poll", Call::Poll { .. }) => request["request"]["channel"] == format!("channel {n}"),
        ("/api/v1/lookup", Call::Lookup { .. }) => request["request"]["public_key"] == b64(40 + n as KeyId),
        ("/api/v1/disconnect", Call::Disconnect) => request["public_key"] == b64(*who as KeyId),
        _ => false,
    })
}

/// The request proves who makes it, and tells what the call is about.
fn judge_request(case: &C36, call: usize, path: &str, request: &Json) -> Verdict {
    let (who, server, kind, _) = &case.calls[call];
    let key = *who as KeyId;

    let seed = request["proof"]["seed"].as_u64().unwrap_or_default();
    let sign = request["proof"]["sign"].as_str().and_then(refimpl::unb64).unwrap_or_default();

    ensure!(request["public_key"] == b64(key), "call {call} by client {who} makes a request by {}", request["public_key"]);
    ensure!(seed >> 63 == 1 && refimpl::verify(key, &seed.to_be_bytes(), &sign), "request of the call {call} isn't proven: {}", short(request));

    let body = &request["request"];

    let ours = match (path, kind) {
        ("/api/v1/poll", Call::Poll { remaining, .. }) => body["channel"] == format!("channel {call}") && body["limit"] == json!(remaining),
        ("/api/v1/lookup", Call::Lookup { .. }) => body["public_key"] == b64(40 + call as KeyId),

        ("/api/v1/send", Call::Send) => body["channel"] == format!("channel {call}")
            && body["receiver"]["public_key"] == b64(40 + call as KeyId)
            && body["message"]["content"] == format!("message {call}")
            && body["sender"]["client"]["public_key"] == b64(key)
            && body["sender"]["server"]["public_key"] == b64(FIRST + *server as KeyId),

        ("/api/v1/connect", Call::Connect) | ("/api/v1/disconnect", Call::Disconnect) | ("/api/v1/announce", Call::Announce) => true,
        _ => false,
    };

    ensure!(ours, "call {call} ({kind:?}) by client {who} requests {path}: {}", short(body));

    Ok(())
}

fn serve(case: &C36, call: usize, server: u8, hop: u8, path: &str, request: Option<&Json>, wrong: &Mutex<Vec<String>>) -> Outcome {
    if let Some(request) = request {
        if let Err(Fail(text)) = judge_request(case, call, path, request) {
            wrong.lock().unwrap().push(text);
        }
    }

    answer_call(case, call, server, hop, path, request)
}

/// What a call has given.
#[derive(Debug, PartialEq)]
enum Given {
    Key(PublicKey),
    Clients(Vec<Client>),
    Servers(Vec<Server>),
    Connection { client: PublicKey, server: PublicKey, address: String, certified: bool },
    Done,
    Found(Option<(Client, Server, bool)>),
    Messages(Vec<MessageInfo>, u64),
    Failed,
}

/// All that the call may give.
fn expected(case: &C36, call: usize) -> Vec<Given> {
    let (who, server, kind, fate) = &case.calls[call];
    let key = public(FIRST + *server as KeyId);

    vec![match kind {
        Call::Lookup { found, .. } => {
            let nothing = vec![Given::Found(None), Given::Failed];

            let answer = match found {
                true => Given::Found(Some((client_of(call), server_of(call).build(), call % 2 == 0))),
                false => Given::Found(None),
            };

            return match fate {
                Fate::Genuine => vec![answer],
                Fate::OtherServer => vec![answer, Given::Found(None), Given::Failed],
                _ => nothing,
            };
        }

        _ if *fate == Fate::Dead => Given::Failed,
        Call::Clients => Given::Clients(vec![client_of(call)]),
        Call::Servers => Given::Servers(vec![server_of(call).build()]),
        // Any server may answer these
        Call::Announce | Call::Send if *fate == Fate::OtherServer => Given::Done,

        _ if *fate != Fate::Genuine => Given::Failed,
        Call::Info => Given::Key(key),
        Call::Connect => Given::Connection { client: public(*who as KeyId), server: key, address: address(call, *server), certified: true },
        Call::Disconnect | Call::Announce | Call::Send => Given::Done,
        Call::Poll { messages, remaining } => Given::Messages((0..*messages as usize).map(|n| letter(call, n).build()).collect(), *remaining),
    }]
}

async fn perform(case: &C36, call: usize, client: &ClientMiddleware<Slow>, connection: ConnectedClientMiddleware<Slow>) -> (Given, String) {
    let (_, server, kind, _) = &case.calls[call];
    let at = address(call, *server);
    let uri = format!("http://{at}");

    macro_rules! given {
        ($result:expr, $ok:expr) => {
            match $result.await {
                Ok(value) => (#[allow(clippy::redundant_closure_call)] $ok(value), String::new()),
                Err(err) => (Given::Failed, err.to_string()),
            }
        };
    }

    match kind {
        Call::Info => given!(client.get_info(at), |info: InfoResponse| Given::Key(info.public_key)),
        Call::Clients => given!(client.get_clients(at), Given::Clients),
        Call::Servers => given!(client.get_servers(at), Given::Servers),

        Call::Connect => given!(client.connect(at), |made: ConnectedClientMiddleware<Slow>| {
            let cert = made.connection_certificate();
            let server = made.connected_server().clone();
            let client = made.get_client();
            let token = [&cert.token.auth_date.to_be_bytes()[..], &cert.token.public_key.to_bytes()[..]].concat();

            Given::Connection {
                certified: cert.token.public_key == server.public_key
                    && &client.certificate == cert
                    && refimpl::verify_bytes(&client.public_key.to_bytes(), &token, &cert.sign),
                client: client.public_key,
                server: server.public_key,
                address: server.address,
            }
        }),

        Call::Disconnect => given!(connection.disconnect(), |_| Given::Done),
        Call::Announce => given!(connection.announce(uri), |_| Given::Done),
        Call::Lookup { .. } => given!(connection.lookup(public(40 + call as KeyId), None), Given::Found),

        Call::Send => {
            let message = Message { content: format!("message {call}"), sign: String::new(), encoding: EncSpec { encryption: 0, compression: 0 }.build() };

            given!(connection.send(uri, public(40 + call as KeyId), format!("channel {call}"), message), |_| Given::Done)
        }

        Call::Poll { remaining, .. } => given!(connection.poll(format!("channel {call}"), Some(*remaining)), |(messages, remaining)| Given::Messages(messages, remaining)),
    }
}

fn c36_run(case: &C36, cx: &mut Cx) -> Verdict {
    let mut case = case.clone();
    let mut left = BTreeSet::new();

    // A connection is closed once
    case.calls.retain(|(who, server, call, _)| !matches!(call, Call::Disconnect) || left.insert((*who, *server)));

    let case = Arc::new(case);
    let slow = Slow { net: Net::new(2000), pauses: Arc::default() };
    let wrong = Arc::new(Mutex::new(vec![]));

    for server in 0..2 {
        // Connections get made there first
        slow.net.script(&home(server), move |_, _, request| connect_reply(FIRST + server as KeyId, request));
    }

    // Two clients, each with its connections made by one middleware
    let clients = (0..2).map(|n: KeyId| ClientMiddleware::new(slow.clone(), ClientDriver::new(InfoSpec { kind: 0, address: None }.build(), secret(n)))).collect::<Vec<_>>();

    let connections = clients.iter()
        .map(|client| (0..2u8).map(|server| {
            cx.block_on(client.connect_to(home(server), public(FIRST + server as KeyId)))
                .unwrap_or_else(|err| infra(format!("can't connect: {err}")))
        }).collect::<Vec<_>>())
        .collect::<Vec<_>>();

    for server in 0..2 {
        for call in 0..case.calls.len() {
            for hop in 0..3 {
                let (case, wrong) = (case.clone(), wrong.clone());
                slow.net.script(&hop_address(call, server, hop), move |_, path, request| serve(&case, call, server, hop, path, request, &wrong));
            }
        }

        let (case, wrong) = (case.clone(), wrong.clone());

        slow.net.script(&home(server), move |_, path, request| {
            match request.and_then(|request| caller(&case, server, path, request)) {
                Some(call) => serve(&case, call, server, 0, path, request, &wrong),

                None => {
                    wrong.lock().unwrap().push(format!("request {path} to the home server {server} belongs to no call: {}", short(&request)));
                    Outcome::Refused
                }
            }
        });
    }

    slow.net.reset();
    *slow.pauses.lock().unwrap() = case.pauses.iter().copied().collect();

    // All the calls start, and go on each time something they wait for is over
    let results = cx.block_on(async {
        let mut calls = case.calls.iter().enumerate()
            .map(|(i, (who, server, ..))| {
                let client = &clients[*who as usize];
                let connection = connections[*who as usize][*server as usize].clone();

                (Box::pin(perform(&case, i, client, connection)), None)
            })
            .collect::<Vec<_>>();

        std::future::poll_fn(move |cx| {
            for (call, result) in &mut calls {
                if result.is_none() {
                    if let std::task::Poll::Ready(value) = call.as_mut().poll(cx) {
                        *result = Some(value);
                    }
                }
            }

            match calls.iter().all(|(_, result)| result.is_some()) {
                true => std::task::Poll::Ready(calls.iter_mut().map(|(_, result)| result.take().unwrap()).collect::<Vec<_>>()),
                false => std::task::Poll::Pending,
            }
        }).await
    });

    cx.exec();

    if let Some(text) = wrong.lock().unwrap().first() {
        fail!("{text}");
    }

    for (i, (given, error)) in results.iter().enumerate() {
        let (who, server, kind, fate) = &case.calls[i];
        let allowed = expected(&case, i);

        ensure!(
            allowed.contains(given),
            "call {i} of {} at once, {kind:?} by client {who} at the server {server} ({fate:?}), gives {} {error} instead of {}",
            case.calls.len(), short(given), short(&allowed)
        );

        cx.label(match fate {
            Fate::Genuine => "answered",
            Fate::OtherSeed => "wrong proof",
            Fate::OtherServer => "other server's proof",
            Fate::Error => "error",
            Fate::Dead => "no answer",
        });
    }

    let who = case.calls.iter().map(|c| c.0).collect::<BTreeSet<_>>();

    if who.len() < case.calls.len() && case.pauses.iter().any(|n| *n > 0) {
        cx.nontrivial();
    }

    Ok(())
}

fn connect_reply(key: KeyId, request: Option<&Json>) -> Outcome {
    let seed = request.and_then(|r| r["proof"]["seed"].as_u64()).unwrap_or_default();
    let sign = SignSpec::Raw(Blob::Hex(hex(&refimpl::sign(key, &seed.to_be_bytes()))));

    Outcome::Json(response_json(&RespSpec { answer: Answer::Connect, key, seed, sign, error: None }))
}

pub fn c36() -> Check {
    Def {
        id: "C36",
        level: "exploration",
        rule: "several calls of one client made at once whose requests take different time",
        assumptions: &[
            "calls of one thread, switched where they wait for the network",
            "what a lookup gives if the client's own server doesn't answer it provably isn't judged",
        ],
        quick: 6_000,
        thorough: 200_000,
        shards: 8,
        gen: c36_gen,
        run: c36_run,
    }.build()
}
