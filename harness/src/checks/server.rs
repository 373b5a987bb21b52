//! C15..C18: request handlers of the server.

use std::collections::{BTreeMap, BTreeSet};

use serde::{Deserialize, Serialize};
use serde_json::Value as Json;

use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;

use crate::checks::proof::{cert_valid, Forgery};
use crate::dict;
use crate::engine::*;
use crate::gens::*;
use crate::net::*;
use crate::refimpl;
use crate::shim::Fault;
use crate::wire::*;
use crate::{ensure, fail};

pub const SERVER: KeyId = 100;
const BASE: u64 = 1_700_000_000;

pub fn channels() -> Vec<String> {
    // Names which are keys of clients have no special meaning either
    ["main", "other", "x/y", ""].map(String::from).into_iter().chain((0..2).map(b64)).collect()
}

pub fn channel(src: &mut Src) -> String {
    channels()[src.weighted(&[6, 3, 1, 1, 1, 1])].clone()
}

const CLIENTS: u64 = 4;

/// Keys of clients, other servers, and the server itself.
fn anyone(src: &mut Src) -> KeyId {
    match src.weighted(&[8, 2, 1]) {
        0 => src.below(CLIENTS) as KeyId,
        1 => 101 + src.below(2) as KeyId,
        _ => SERVER,
    }
}

pub fn everyone() -> Vec<KeyId> {
    (0..CLIENTS as KeyId).chain([100, 101, 102]).collect()
}

fn proof(src: &mut Src, key: KeyId, seed: u64, forge: (u64, u64)) -> SignSpec {
    if src.chance(forge.0, forge.1) { Forgery::gen(src, key).spec(&seed.to_be_bytes()) } else { SignSpec::By(key) }
}

fn make_cert(src: &mut Src, client: KeyId, server: KeyId, date: u64, forge: (u64, u64)) -> CertSpec {
    let token = TokenSpec { date, server: if src.chance(forge.0, forge.1) { anyone(src) } else { server } };

    let sign = if src.chance(forge.0, forge.1) {
        Forgery::gen(src, client).spec(&refimpl::token_bytes(&token))
    } else {
        SignSpec::By(client)
    };

    CertSpec { token, sign }
}

/// Request number `n` of the history, forged with about given probability.
pub fn request(src: &mut Src, n: u64, forge: (u64, u64)) -> ReqSpec {
    let key = if src.chance(1, 10) { anyone(src) } else { src.below(CLIENTS) as KeyId };

    let body = match src.weighted(&[5, 2, 5, 2, 4, 6, 4]) {
        // Dates of connections grow; announcements have others, all distinct
        0 => Body::Connect { cert: make_cert(src, key, SERVER, BASE + 100 * n, forge), info: InfoSpec::gen(src) },
        1 => Body::Disconnect,

        2 => {
            let client = if src.bool() { key } else { anyone(src) };
            let server = if src.chance(1, 6) { SERVER } else { 101 + src.below(2) as KeyId };
            let date = BASE + 100 * src.below(30) + 1 + n;

            Body::AnnounceClient {
                client: ClientSpec { key: client, cert: make_cert(src, client, server, date, forge), info: InfoSpec::gen(src) },
                server: ServerSpec { key: server, address: text(src, 20) },
            }
        }

        3 => Body::AnnounceServer { server: ServerSpec { key: anyone(src), address: text(src, 20) } },
        4 => Body::Lookup { key: anyone(src), kind: if src.chance(1, 3) { Some(src.below(4) as u8) } else { None } },
        5 => Body::Send { sender: SenderSpec::gen(src), receiver: anyone(src), channel: channel(src), message: MessageSpec::gen(src, 30) },
        _ => Body::Poll { channel: channel(src), limit: match src.below(4) { 0 => None, 1 => Some(num(src)), _ => Some(src.below(4)) } },
    };

    let seed = if src.chance(forge.0, forge.1 * 2) { num(src) } else { long_seed(src) };

    ReqSpec { key, seed, sign: proof(src, key, seed, forge), body }
}

/// Request number `n` made of parts of an earlier one.
fn stolen(src: &mut Src, n: u64, earlier: &ReqSpec, forge: (u64, u64)) -> ReqSpec {
    let fresh = request(src, n, forge);
    let seed = long_seed(src);

    // Somebody else's body or certificate under one's own or an unproven name
    let key = if src.bool() { earlier.key } else { fresh.key };
    let signer = if src.bool() { key } else { fresh.key };

    let body = match (&earlier.body, src.below(4)) {
        (Body::Connect { cert, .. }, 0..=1) => Body::Connect { cert: cert.clone(), info: InfoSpec::gen(src) },
        (Body::Connect { cert, .. }, 2) => Body::AnnounceClient {
            client: ClientSpec { key: earlier.key, cert: cert.clone(), info: InfoSpec::gen(src) },
            server: ServerSpec { key: anyone(src), address: text(src, 20) },
        },
        (Body::AnnounceClient { client, server }, 0..=1) => {
            let mut client = client.clone();
            let mut server = server.clone();

            match src.below(4) {
                0 => client.info = InfoSpec::gen(src),
                1 => server.key = anyone(src),
                2 => client.key = anyone(src),
                _ => server.address = text(src, 20),
            }

            Body::AnnounceClient { client, server }
        }
        (Body::AnnounceClient { client, .. }, 2) => Body::Connect { cert: client.cert.clone(), info: InfoSpec::gen(src) },
        (_, 3) => fresh.body.clone(),
        (body, _) => body.clone(),
    };

    match src.below(4) {
        // The proof is stolen as well
        0 => ReqSpec { key, seed: earlier.seed, sign: SignSpec::Raw(Blob::Hex(hex(&seed_sign(&earlier.sign, earlier.seed)))), body },
        1 => ReqSpec { key, seed, sign: SignSpec::Raw(Blob::Hex(hex(&seed_sign(&earlier.sign, earlier.seed)))), body },
        _ => ReqSpec { key, seed, sign: SignSpec::By(signer), body },
    }
}

/// Judge the request without the library.
pub fn genuine(r: &ReqSpec, server: KeyId) -> bool {
    r.seed >> 63 == 1 && refimpl::verify(r.key, &r.seed.to_be_bytes(), &seed_sign(&r.sign, r.seed)) && match &r.body {
        Body::Connect { cert, .. } => cert_valid(cert, r.key, server),
        Body::AnnounceClient { client, server } => cert_valid(&client.cert, client.key, server.key),
        _ => true,
    }
}

pub fn path(body: &Body) -> &'static str {
    match body {
        Body::Connect { .. } => "/api/v1/connect",
        Body::Disconnect => "/api/v1/disconnect",
        Body::AnnounceClient { .. } | Body::AnnounceServer { .. } => "/api/v1/announce",
        Body::Lookup { .. } => "/api/v1/lookup",
        Body::Send { .. } => "/api/v1/send",
        Body::Poll { .. } => "/api/v1/poll",
    }
}

pub fn b64(key: KeyId) -> String {
    refimpl::public_b64(key)
}

/// What the request does to the server's holdings.
pub fn apply(state: &mut Holdings, r: &ReqSpec) {
    match &r.body {
        Body::Connect { cert, info } => {
            state.local.insert(b64(r.key), Client { public_key: public(r.key), certificate: cert.build(), info: info.build() });
        }

        Body::Disconnect => {
            state.local.remove(&b64(r.key));
            state.remote.remove(&b64(r.key));
            state.servers.remove(&b64(r.key));
        }

        Body::AnnounceClient { client, server } => {
            let older = state.remote.get(&b64(client.key)).is_some_and(|(old, _)| old.certificate.token.auth_date > client.cert.token.date);

            if !older {
                state.remote.insert(b64(client.key), (client.build(), server.build()));
            }
        }

        Body::AnnounceServer { server } => {
            state.servers.insert(b64(server.key), server.build());
        }

        Body::Lookup { .. } => (),

        Body::Send { sender, receiver, channel, message } => {
            state.inbox.entry((b64(*receiver), channel.clone())).or_default().push(MessageInfo {
                sender: sender.build(),
                channel: channel.clone(),
                message: message.build(),
                received_at: 0,
            });
        }

        Body::Poll { channel, limit } => {
            let key = (b64(r.key), channel.clone());

            if let Some(queue) = state.inbox.get_mut(&key) {
                let n = limit.unwrap_or(u64::MAX).min(queue.len() as u64) as usize;
                queue.drain(..n);

                if queue.is_empty() {
                    state.inbox.remove(&key);
                }
            }
        }
    }
}

fn judge_error(json: &Json, what: &str) -> Verdict {
    let status = json["status"].as_u64();

    ensure!(status.is_some_and(|s| FAILURES.iter().any(|f| f.1 == s)), "{what} is answered with the status {}", json["status"]);
    ensure!(json["reason"].as_str().is_some_and(|reason| !reason.is_empty()), "error reply to {what} has no reason");

    Ok(())
}

/// The reply is a provable success or a proper error.
pub fn judge_reply(reply: &Reply, what: &str, server: KeyId, seed: u64) -> Result<(bool, Json), Fail> {
    let text = match reply {
        Reply::Json(text) => text,
        Reply::Refused(text) => fail!("{what} is refused by the web server: {text}"),
    };

    let json = serde_json::from_str::<Json>(text).map_err(|e| Fail(e.to_string()))?;

    if json["status"] == 100 {
        ensure!(json["public_key"].as_str() == Some(&b64(server)), "success reply to {what} names another server");

        let sign = json["proof"]["sign"].as_str().and_then(refimpl::unb64).unwrap_or_default();

        ensure!(refimpl::verify(server, &seed.to_be_bytes(), &sign), "success reply to {what} isn't signed by the server over the request's seed");

        return Ok((true, json));
    }

    judge_error(&json, what)?;

    Ok((false, json))
}

/// Does the lookup's answer follow from what the server holds?
pub fn judge_lookup(body: &LookupResponseBody, state: &Holdings, target: KeyId, kind: Option<u8>) -> Verdict {
    let fits = |client: &Client| kind.is_none_or(|k| client.info.client_type == client_type(k));

    let local = state.local.get(&b64(target)).filter(|c| fits(c));
    let remote = state.remote.get(&b64(target)).filter(|c| fits(&c.0));

    let date = |c: &Client| c.certificate.token.auth_date;
    let prefer_local = local.is_some_and(|l| remote.is_none_or(|r| date(l) >= date(&r.0)));
    let prefer_remote = remote.is_some_and(|r| local.is_none_or(|l| date(&r.0) >= date(l)));

    match body {
        LookupResponseBody::Local { client, .. } => {
            ensure!(local.is_some(), "lookup gives a local record of a client that isn't connected with that type");
            ensure!(Some(client) == local, "lookup gives the local record {} instead of {}", short(client), short(&local));
            ensure!(prefer_local, "lookup gives the local record though the announced one is newer");
        }

        LookupResponseBody::Remote { client, server, .. } => {
            ensure!(remote.is_some(), "lookup gives an announced record of a client that isn't known with that type");
            let (c, s) = remote.unwrap();
            ensure!(client == c && server == s, "lookup gives the announced record {} at {} instead of {} at {}", short(client), short(server), short(c), short(s));
            ensure!(prefer_remote, "lookup gives the announced record though the local one is newer");
        }

        LookupResponseBody::Hint { servers } => {
            ensure!(local.is_none() && remote.is_none(), "lookup gives hints though the client is known");

            let given = servers.iter().map(|s| (s.public_key.to_base64(), s.clone())).collect::<BTreeMap<_, _>>();
            ensure!(given == state.servers && servers.len() == given.len(), "lookup hints {} while the server knows {}", short(servers), short(&state.servers));
        }
    }

    Ok(())
}

/// Does the reply's content follow from what the server held before the request?
pub fn judge_content(json: &Json, r: &ReqSpec, before: &Holdings) -> Verdict {
    match &r.body {
        Body::Lookup { key, kind } => {
            let response = LookupResponse::from_json(json).map_err(|e| Fail(e.to_string()))?;

            match &response.0 {
                Response::Success { response, .. } => judge_lookup(response, before, *key, *kind),
                Response::Error { .. } => fail!("success is an error"),
            }
        }

        Body::Poll { channel, limit } => {
            let response = PollResponse::from_json(json).map_err(|e| Fail(e.to_string()))?;
            let Response::Success { response, .. } = response.0 else { fail!("success is an error") };

            let queue = before.inbox.get(&(b64(r.key), channel.clone())).cloned().unwrap_or_default();
            let n = limit.unwrap_or(u64::MAX).min(queue.len() as u64) as usize;
            let given = response.messages.into_iter().map(timeless).collect::<Vec<_>>();

            ensure!(given == queue[..n], "poll with the limit {limit:?} of {} messages gives {}", queue.len(), short(&given));
            ensure!(response.remaining == (queue.len() - n) as u64, "poll tells {} remaining messages instead of {}", response.remaining, queue.len() - n);

            Ok(())
        }

        _ => Ok(()),
    }
}

pub fn show(r: &ReqSpec) -> String {
    let name = Record::Request(r.clone()).name();
    format!("{name} by key {}", r.key)
}

fn diff(actual: &Holdings, expected: &Holdings) -> String {
    let mut parts = vec![];

    macro_rules! part {
        ($field:ident, $name:literal) => {
            if actual.$field != expected.$field {
                let keys = actual.$field.keys().chain(expected.$field.keys()).collect::<BTreeSet<_>>();
                for key in keys {
                    if actual.$field.get(key) != expected.$field.get(key) {
                        parts.push(format!("{} {key:?}: {} instead of {}", $name, short(&actual.$field.get(key)), short(&expected.$field.get(key))));
                    }
                }
            }
        };
    }

    part!(local, "connected client");
    part!(remote, "announced client");
    part!(servers, "server");
    part!(inbox, "queue");

    parts.join("; ")
}

// ----------------------------------------------------------------------- C15

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act {
    Request(ReqSpec),
    /// The very same request as some act before.
    Replay(u32),
    Reopen,
    Lists,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C15 {
    stored: bool,
    acts: Vec<Act>,
}

fn acts(src: &mut Src, max: u64, forge: (u64, u64)) -> Vec<Act> {
    let n = 1 + src.below(max);

    let mut earlier = Vec::<ReqSpec>::new();

    (0..n).map(|i| match src.weighted(&[18, 2, 1, 1, 4]) {
        k @ (0 | 4) => {
            let request = if k == 4 && !earlier.is_empty() {
                let j = src.usize(earlier.len());
                stolen(src, i, &earlier[j], forge)
            } else {
                request(src, i, forge)
            };

            earlier.push(request.clone());
            Act::Request(request)
        }
        1 => Act::Replay(src.below(i.max(1)) as u32),
        2 => Act::Reopen,
        _ => Act::Lists,
    }).collect()
}

/// Requests in the order they're made; replays of outdated connections are left out.
fn resolve(acts: &[Act]) -> Vec<Option<ReqSpec>> {
    let mut connected = BTreeMap::<KeyId, u64>::new();

    acts.iter().map(|act| {
        let request = match act {
            Act::Request(r) => Some(r),
            Act::Replay(i) => match acts.get(*i as usize) {
                Some(Act::Request(r)) => Some(r),
                _ => None,
            },
            _ => None,
        }?;

        if let (Body::Connect { cert, .. }, true) = (&request.body, genuine(request, SERVER)) {
            let last = connected.entry(request.key).or_default();

            if cert.token.date < *last {
                return None;
            }

            *last = cert.token.date;
        }

        Some(request.clone())
    }).collect()
}

pub fn outdated(state: &Holdings, r: &ReqSpec) -> bool {
    match &r.body {
        Body::AnnounceClient { client, .. } =>
            state.remote.get(&b64(client.key)).is_some_and(|(old, _)| old.certificate.token.auth_date > client.cert.token.date),
        _ => false,
    }
}

fn judge_lists(server: &TestServer, cx: &Cx, state: &Holdings) -> Verdict {
    let get = |path: &str| match server.get(cx, path) {
        Reply::Json(text) => serde_json::from_str::<Json>(&text).map_err(|e| Fail(e.to_string())),
        Reply::Refused(text) => Err(Fail(format!("{path} is refused: {text}"))),
    };

    let clients = ClientsResponse::from_json(&get("/api/v1/clients")?).map_err(|e| Fail(e.to_string()))?.clients;
    let clients = unique("/api/v1/clients", clients.into_iter().map(|c| (c.public_key.to_base64(), c)).collect())?;
    ensure!(clients == state.local, "/api/v1/clients gives {} instead of {}", short(&clients), short(&state.local));

    let servers = ServersResponse::from_json(&get("/api/v1/servers")?).map_err(|e| Fail(e.to_string()))?.servers;
    let servers = unique("/api/v1/servers", servers.into_iter().map(|c| (c.public_key.to_base64(), c)).collect())?;
    ensure!(servers == state.servers, "/api/v1/servers gives {} instead of {}", short(&servers), short(&state.servers));

    let info = get("/api/v1/info")?;
    let seed = info["proof"]["seed"].as_u64().unwrap_or_default();
    let sign = info["proof"]["sign"].as_str().and_then(refimpl::unb64).unwrap_or_default();

    ensure!(info["server"]["public_key"].as_str() == Some(&b64(server.key)), "/api/v1/info names another key");
    ensure!(refimpl::verify(server.key, &seed.to_be_bytes(), &sign), "/api/v1/info isn't signed by the server");

    Ok(())
}

fn c15_run(case: &C15, cx: &mut Cx) -> Verdict {
    let net = Net::new(1000);
    let mut server = TestServer::new(cx, SERVER, "127.0.0.1:8000", case.stored, net.clone());
    let mut model = Holdings::default();
    let (receivers, channels) = (everyone(), channels());
    let requests = resolve(&case.acts);
    let (mut forged, mut good, mut changed) = (0, 0, 0);

    for (i, (act, request)) in case.acts.iter().zip(requests).enumerate() {
        match (act, request) {
            (Act::Reopen, _) => server.reopen(cx, net.clone()),
            (Act::Lists, _) => judge_lists(&server, cx, &model)?,
            (_, None) => continue,

            (_, Some(r)) => {
                let valid = genuine(&r, SERVER);
                let reply = server.post(cx, path(&r.body), request_json(&r).to_string());
                cx.exec();

                if valid {
                    good += 1;
                    let what = format!("genuine {}", show(&r));
                    let late = outdated(&model, &r);
                    let (success, json) = judge_reply(&reply, &what, SERVER, r.seed)?;

                    ensure!(success || late, "{what} is answered with an error: {json}");

                    if success {
                        judge_content(&json, &r, &model)?;
                    }

                    let before = model.clone();
                    apply(&mut model, &r);
                    if before != model { changed += 1; }
                } else {
                    forged += 1;
                    cx.label(match &r.body {
                        Body::Connect { .. } => "forged connect",
                        Body::Disconnect => "forged disconnect",
                        Body::AnnounceClient { .. } | Body::AnnounceServer { .. } => "forged announce",
                        Body::Lookup { .. } => "forged lookup",
                        Body::Send { .. } => "forged send",
                        Body::Poll { .. } => "forged poll",
                    });

                    if let Reply::Json(text) = &reply {
                        let json = serde_json::from_str::<Json>(text).map_err(|e| Fail(e.to_string()))?;
                        judge_error(&json, &format!("forged {}", show(&r)))?;
                    }
                }

                if !case.stored || i % 3 == 0 {
                    let actual = server.holdings(cx, &receivers, &channels)?;
                    ensure!(actual == model, "after {} {}: {}", if valid { "genuine" } else { "forged" }, show(&r), diff(&actual, &model));
                }
            }
        }
    }

    let actual = server.holdings(cx, &receivers, &channels)?;
    ensure!(actual == model, "in the end: {}", diff(&actual, &model));
    judge_lists(&server, cx, &model)?;
    server.close(cx);

    if forged > 0 && good > 0 && changed > 0 {
        cx.nontrivial();
    }

    cx.label(if case.stored { "stored" } else { "in memory" });
    cx.label_if(!model.inbox.is_empty(), "messages are left");

    Ok(())
}

pub fn c15() -> Check {
    Def {
        id: "C15",
        level: "exploration",
        rule: "history with at least one genuine request that changed the server's holdings and one forged request",
        assumptions: &[
            "requests are judged by an independent validator; replays of genuine requests count as genuine",
            "connection dates of a client grow within a history",
        ],
        quick: 6_000,
        thorough: 150_000,
        shards: 8,
        gen: |src| C15 { stored: src.chance(1, 4), acts: acts(src, 24, (1, 7)) },
        run: c15_run,
    }.build()
}

// ----------------------------------------------------------------------- C16

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Fuss {
    None,
    /// Storage calls from this one on fail, without or with their effect.
    Calls { at: u64, effect: bool },
    /// File operation fails, alone or with all the following ones.
    Files { at: u64, errno: u8, all: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C16 {
    stored: bool,
    acts: Vec<(Act, Fuss)>,
}

pub const ERRNOS: [i32; 4] = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE];

fn c16_gen(src: &mut Src) -> C16 {
    let stored = src.chance(1, 2);

    let acts = acts(src, 16, (1, 16)).into_iter().map(|act| {
        let fuss = if src.chance(2, 5) {
            if stored {
                Fuss::Files { at: src.below(14), errno: src.below(4) as u8, all: src.chance(1, 3) }
            } else {
                Fuss::Calls { at: src.below(3), effect: src.chance(1, 4) }
            }
        } else {
            Fuss::None
        };

        (act, fuss)
    }).collect();

    C16 { stored, acts }
}

/// Keys the request may change.
fn subject(r: &ReqSpec) -> String {
    match &r.body {
        Body::AnnounceClient { client, .. } => b64(client.key),
        Body::AnnounceServer { server } => b64(server.key),
        Body::Send { receiver, .. } => b64(*receiver),
        _ => b64(r.key),
    }
}

fn without(state: &Holdings, key: &str) -> Holdings {
    let mut state = state.clone();

    state.local.remove(key);
    state.remote.remove(key);
    state.servers.remove(key);
    state.inbox.retain(|k, _| k.0 != key);

    state
}

fn c16_run(case: &C16, cx: &mut Cx) -> Verdict {
    let net = Net::new(1000);
    let mut server = TestServer::new(cx, SERVER, "127.0.0.1:8000", case.stored, net.clone());
    let mut model = Holdings::default();
    let (receivers, channels) = (everyone(), channels());
    let acts = case.acts.iter().map(|a| a.0.clone()).collect::<Vec<_>>();
    let requests = resolve(&acts);

    for ((act, fuss), request) in case.acts.iter().zip(requests) {
        let r = match (act, request) {
            (Act::Reopen, _) => { server.reopen(cx, net.clone()); continue }
            (_, None) => continue,
            (_, Some(r)) => r,
        };

        match (fuss, &server.storage) {
            (Fuss::Calls { at, effect: false }, Storage::Mem(mem)) => mem.arm(Trouble::Before(*at)),
            (Fuss::Calls { at, effect: true }, Storage::Mem(mem)) => mem.arm(Trouble::After(*at)),

            (Fuss::Files { at, errno, all }, Storage::Stored(_)) => cx.ctl.arm(if *all {
                Fault::Crash { at: *at, torn: errno % 2 == 0 }
            } else {
                Fault::Fail { at: *at, errno: ERRNOS[*errno as usize % 4] }
            }),

            _ => (),
        }

        let reply = server.post(cx, path(&r.body), request_json(&r).to_string());
        cx.exec();

        let failed = match &server.storage {
            Storage::Mem(mem) => {
                let failed = mem.0.lock().unwrap().failed;
                mem.arm(Trouble::None);
                failed
            }
            Storage::Stored(_) => cx.ctl.disarm().fired.is_some(),
        };

        let valid = genuine(&r, SERVER);
        let what = format!("{}{}", show(&r), if failed { " over a failing storage" } else { "" });
        let late = outdated(&model, &r);
        let (success, json) = judge_reply(&reply, &what, SERVER, r.seed)?;

        ensure!(valid || !success, "forged {what} is answered with success");
        ensure!(success || failed || !valid || late, "genuine {what} is answered with an error: {json}");

        let actual = server.holdings(cx, &receivers, &channels)?;

        if success {
            judge_content(&json, &r, &model).map_err(|Fail(text)| Fail(format!("{what} is answered with success, but {text}")))?;
            apply(&mut model, &r);

            ensure!(actual == model, "{what} is answered with success, but {}", diff(&actual, &model));
        } else if valid && failed {
            let key = subject(&r);
            let (a, b) = (without(&actual, &key), without(&model, &key));

            ensure!(a == b, "failed {what} changed others' records: {}", diff(&a, &b));

            // The subject's own records may be as before or after, or half-way
            model = actual;
        } else if !late {
            ensure!(actual == model, "{what} is answered with an error, but {}", diff(&actual, &model));
        } else {
            model = actual;
        }

        if failed {
            cx.nontrivial();
            cx.label(if success { "success in spite of a failure" } else { "storage failure reported" });
            cx.label(match &r.body {
                Body::Connect { .. } => "connect",
                Body::Disconnect => "disconnect",
                Body::AnnounceClient { .. } | Body::AnnounceServer { .. } => "announce",
                Body::Lookup { .. } => "lookup",
                Body::Send { .. } => "send",
                Body::Poll { .. } => "poll",
            });
        }
    }

    server.close(cx);

    Ok(())
}

pub fn c16() -> Check {
    Def {
        id: "C16",
        level: "exploration",
        rule: "history with at least one request during which the storage failed",
        assumptions: &[
            "a storage failure may leave the records of the request's own subject as before, as after, or half-way; others' records must stay",
            "the lists GET /clients and GET /servers have no error form and aren't judged over a failing storage",
        ],
        quick: 6_000,
        thorough: 150_000,
        shards: 8,
        gen: c16_gen,
        run: c16_run,
    }.build()
}

// ----------------------------------------------------------------------- C17

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C17 {
    /// 0: in-memory, one record per key; 1: stored; 2: in-memory with several records of a key
    router: u8,
    /// Order in which the three kinds of records arrive.
    #[serde(default)]
    order: u8,
    local: Vec<ClientSpec>,
    remote: Vec<(ClientSpec, ServerSpec)>,
    servers: Vec<ServerSpec>,
    lookups: Vec<(KeyId, KeyId, Option<u8>)>,
}

fn c17_gen(src: &mut Src) -> C17 {
    let router = src.below(3) as u8;

    let client = |src: &mut Src| {
        let key = pool_key_or_twin(src, 5);
        let date = match src.below(3) { 0 => BASE + src.below(3), 1 => num(src), _ => BASE + src.below(1000) };

        ClientSpec { key, cert: CertSpec::genuine(key, SERVER, date), info: InfoSpec::gen(src) }
    };

    // Servers may be clients of one another as well
    let server = |src: &mut Src| ServerSpec {
        key: if src.chance(1, 8) { pool_key_or_twin(src, 5) } else { 100 + src.below(4) as KeyId },
        address: if src.chance(1, 8) { String::from("127.0.0.1:8000") } else { text(src, 20) },
    };

    let local = src.vec(0, 5, client);
    let remote = src.vec(0, 5, |src| (client(src), server(src)));

    // At times a table of some size
    let servers = if let Some(n) = dict::count(src, 20, 2000) {
        (0..n).map(|n| ServerSpec { key: 100 + n as KeyId, address: format!("s{n}.test") }).collect()
    } else if src.chance(1, 25) {
        src.vec(20, 80, |src| ServerSpec { key: 100 + src.below(200) as KeyId, address: text(src, 8) })
    } else {
        src.vec(0, 4, server)
    };

    let who = |src: &mut Src| match src.below(12) { 0 => 5, 1 => 100 + src.below(5) as KeyId, _ => pool_key_or_twin(src, 5) };

    let lookups = src.vec(1, 12, |src| (
        who(src),
        who(src),
        if src.bool() { Some(src.below(4) as u8) } else { None },
    ));

    C17 { router, order: src.below(6) as u8, local, remote, servers, lookups }
}

fn c17_run(case: &C17, cx: &mut Cx) -> Verdict {
    let net = Net::new(1000);
    let server = TestServer::new(cx, SERVER, "127.0.0.1:8000", case.router == 1, net);

    let local = case.local.iter().map(ClientSpec::build).collect::<Vec<_>>();
    let remote = case.remote.iter().map(|(c, s)| (c.build(), s.build())).collect::<Vec<_>>();
    let servers = case.servers.iter().map(ServerSpec::build).collect::<Vec<_>>();

    // Records the server holds
    let (local, remote, servers) = match &server.storage {
        Storage::Mem(mem) => {
            let mut s = mem.0.lock().unwrap();

            if case.router == 2 {
                s.local = local;
                s.remote = remote;
                s.servers = servers;
            } else {
                for c in local { s.local.retain(|o| o.public_key != c.public_key); s.local.push(c); }
                for c in remote { s.remote.retain(|o| o.0.public_key != c.0.public_key); s.remote.push(c); }
                for c in servers { s.servers.retain(|o| o.public_key != c.public_key); s.servers.push(c); }
            }

            (s.local.clone(), s.remote.clone(), s.servers.clone())
        }

        Storage::Stored(dir) => {
            let router = open_router(cx, dir);

            cx.block_on(async {
                for kind in [[0, 1, 2], [1, 0, 2], [2, 0, 1], [2, 1, 0], [0, 2, 1], [1, 2, 0]][case.order as usize % 6] {
                    match kind {
                        0 => for c in &local { router.index_local_client(c.clone()).await?; },
                        1 => for (c, s) in &remote { router.index_remote_client(c.clone(), s.clone()).await?; },
                        _ => for s in &servers { router.index_server(s.clone()).await?; },
                    }
                }

                Ok::<_, Box<dyn std::error::Error>>(())
            }).map_err(|err| Fail(format!("records can't be indexed: {err}")))?;

            // The last ones of each key, and the newest announced ones
            let (mut l, mut r, mut s) = (BTreeMap::new(), BTreeMap::<_, (Client, Server)>::new(), BTreeMap::new());

            for c in local { l.insert(c.public_key.to_base64(), c); }
            for c in servers { s.insert(c.public_key.to_base64(), c); }

            for c in remote {
                match r.get(&c.0.public_key.to_base64()) {
                    Some(old) if old.0.certificate.token.auth_date > c.0.certificate.token.auth_date => (),
                    _ => { r.insert(c.0.public_key.to_base64(), c); }
                }
            }

            (l.into_values().collect(), r.into_values().collect(), s.into_values().collect())
        }
    };

    for (n, (requester, target, kind)) in case.lookups.iter().enumerate() {
        let seed = 1 << 63 | n as u64;
        let r = ReqSpec { key: *requester, seed, sign: SignSpec::By(*requester), body: Body::Lookup { key: *target, kind: *kind } };
        let reply = server.post(cx, path(&r.body), request_json(&r).to_string());
        cx.exec();

        let (success, json) = judge_reply(&reply, "lookup", SERVER, seed)?;
        ensure!(success, "lookup is answered with an error: {json}");

        let response = LookupResponse::from_json(&json).map_err(|e| Fail(e.to_string()))?;
        let Response::Success { response, .. } = response.0 else { fail!("success is an error") };

        let fits = |c: &Client| c.public_key == public(*target) && kind.is_none_or(|k| c.info.client_type == client_type(k));
        let date = |c: &Client| c.certificate.token.auth_date;

        let at = format!("client {requester} looks up {target} of type {kind:?}");
        let ours = local.iter().filter(|c| fits(c)).collect::<Vec<_>>();
        let theirs = remote.iter().filter(|c| fits(&c.0)).collect::<Vec<_>>();

        cx.label_if(!ours.is_empty() && !theirs.is_empty(), "both local and announced");
        cx.label_if(requester != target && !ours.is_empty(), "local of another client");

        if requester != target && (!ours.is_empty() || !theirs.is_empty()) {
            cx.nontrivial();
        }

        match &response {
            LookupResponseBody::Local { client, .. } => {
                ensure!(ours.contains(&client), "{at}: local answer {} isn't a connected record of it", short(client));
                ensure!(theirs.is_empty() || theirs.iter().any(|t| date(client) >= date(&t.0)), "{at}: local answer though announced records are newer");

                if case.router != 2 {
                    ensure!(theirs.iter().all(|t| date(client) >= date(&t.0)), "{at}: local answer though the announced record is newer");
                }
            }

            LookupResponseBody::Remote { client, server, .. } => {
                ensure!(theirs.iter().any(|t| &t.0 == client && &t.1 == server), "{at}: remote answer {} isn't an announced record of it", short(client));
                ensure!(ours.is_empty() || ours.iter().any(|t| date(client) >= date(t)), "{at}: remote answer though local records are newer");

                if case.router != 2 {
                    ensure!(ours.iter().all(|t| date(client) >= date(t)), "{at}: remote answer though the local record is newer");
                }
            }

            LookupResponseBody::Hint { servers: hints } => {
                ensure!(ours.is_empty() && theirs.is_empty(), "{at}: hints though it's known");
                cx.label_if(local.iter().any(|c| c.public_key == public(*target)), "known with another type only");
                cx.label_if(!hints.is_empty(), "hints");

                for s in &servers {
                    ensure!(hints.contains(s), "{at}: known server {} isn't hinted", short(s));
                }
                for s in hints {
                    ensure!(servers.contains(s), "{at}: unknown server {} is hinted", short(s));
                }
            }
        }

        // The router's own lookups
        if let Storage::Stored(dir) = &server.storage {
            let router = open_router(cx, dir);
            let key = public(*target);
            let filter = kind.map(client_type);

            let text = |e: &dyn std::fmt::Display| Fail(format!("router's lookup fails: {e}"));

            let l = cx.block_on(router.lookup_local_client(&key, filter)).map_err(|e| text(&e))?;
            ensure!(l.as_ref().map(|l| &l.0) == ours.first().copied(), "{at}: the router finds the local {} instead of {}", short(&l), short(&ours));

            let r = cx.block_on(router.lookup_remote_client(&key, filter)).map_err(|e| text(&e))?;
            ensure!(r.as_ref().map(|r| (&r.0, &r.1)) == theirs.first().map(|t| (&t.0, &t.1)), "{at}: the router finds the remote {} instead of {}", short(&r), short(&theirs));
        }
    }

    server.close(cx);

    Ok(())
}

pub fn c17() -> Check {
    Def {
        id: "C17",
        level: "exploration",
        rule: "state with a lookup by another client of a client the server knows with the wanted type",
        assumptions: &[
            "where a router lists several records of a key, any of the matching ones may be served",
            "records with equal dates: either may be served",
        ],
        quick: 8_000,
        thorough: 200_000,
        shards: 8,
        gen: c17_gen,
        run: c17_run,
    }.build()
}

// ----------------------------------------------------------------------- C18

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Arrival {
    Connect { client: KeyId, step: u64, info: InfoSpec },
    Announce { client: KeyId, date: u64, server: KeyId, address: String, by: KeyId, info: InfoSpec },
    Replay(u32),
    Disconnect { client: KeyId },
    Reopen,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C18 {
    stored: bool,
    /// First date of connections.
    base: u64,
    arrivals: Vec<Arrival>,
    /// Dates of announcements indexed at once, in the end.
    race: Vec<u64>,
    order: Vec<u8>,
}

fn c18_gen(src: &mut Src) -> C18 {
    let base = match src.below(4) { 0 => 0, 1 => 1 << src.below(64), 2 => u64::MAX - 200, _ => BASE };

    let arrivals = src.vec(2, 12, |src| match src.weighted(&[4, 10, 3, 1, 1]) {
        0 => Arrival::Connect { client: src.below(2) as KeyId, step: src.below(4), info: InfoSpec::gen(src) },

        1 => Arrival::Announce {
            client: src.below(2) as KeyId,
            date: match src.weighted(&[6, 2, 1]) {
                0 => base.saturating_add(src.below(16)),
                1 => base.saturating_sub(src.below(16)),
                _ => dict::number(src).map_or_else(|| num(src), |n| base.saturating_add(n)),
            },
            server: if src.chance(1, 5) { SERVER } else { 101 + src.below(3) as KeyId },
            address: text(src, 10),
            by: src.below(4) as KeyId,
            info: InfoSpec::gen(src),
        },

        2 => Arrival::Replay(src.below(12) as u32),
        3 => Arrival::Disconnect { client: src.below(2) as KeyId },
        _ => Arrival::Reopen,
    });

    let stored = src.chance(2, 5);

    C18 {
        stored,
        base,
        arrivals,
        race: if stored && src.chance(1, 3) { src.vec(2, 3, |src| base.saturating_add(src.below(8))) } else { vec![] },
        order: src.vec(0, 40, |src| src.below(3) as u8),
    }
}

fn c18_run(case: &C18, cx: &mut Cx) -> Verdict {
    let net = Net::new(1000);
    let mut server = TestServer::new(cx, SERVER, "127.0.0.1:8000", case.stored, net.clone());

    // Last connection; all the announcements with the newest date
    let mut local = BTreeMap::<KeyId, Client>::new();
    let mut remote = BTreeMap::<KeyId, Vec<(Client, Server)>>::new();
    let mut step = BTreeMap::<KeyId, u64>::new();
    let mut log = Vec::<Option<ReqSpec>>::new();
    let (mut late, mut conflict) = (0, 0);

    for arrival in &case.arrivals {
        let mut replay = false;

        let request = match arrival {
            Arrival::Reopen => { server.reopen(cx, net.clone()); None }

            Arrival::Connect { client, step: by, info } => {
                let at = step.entry(*client).or_default();
                *at += by;

                let cert = CertSpec::genuine(*client, SERVER, case.base.saturating_add(*at));
                Some((*client, Body::Connect { cert, info: info.clone() }))
            }

            Arrival::Announce { client, date, server, address, by, info } => Some((*by, Body::AnnounceClient {
                client: ClientSpec {
                    key: *client,
                    cert: CertSpec::genuine(*client, *server, *date),
                    info: info.clone(),
                },
                server: ServerSpec { key: *server, address: address.clone() },
            })),

            Arrival::Disconnect { client } => Some((*client, Body::Disconnect)),

            Arrival::Replay(i) => {
                replay = true;
                log.get(*i as usize).cloned().flatten()
                    .filter(|r| matches!(r.body, Body::AnnounceClient { .. }))
                    .map(|r| (r.key, r.body))
            }
        };

        let request = request.map(|(key, body)| ReqSpec { key, seed: 1 << 63 | log.len() as u64, sign: SignSpec::By(key), body });
        log.push(request.clone());

        let Some(r) = request else { continue };
        let reply = server.post(cx, path(&r.body), request_json(&r).to_string());
        cx.exec();

        let (success, json) = judge_reply(&reply, &show(&r), SERVER, r.seed)?;
        let mut outdated = false;

        match &r.body {
            Body::Connect { cert, info } => {
                local.insert(r.key, Client { public_key: public(r.key), certificate: cert.build(), info: info.build() });
            }

            Body::AnnounceClient { client, server } => {
                let known = remote.entry(client.key).or_default();
                let newest = known.first().map(|k| k.0.certificate.token.auth_date);
                let record = (client.build(), server.build());

                match newest {
                    Some(newest) if newest > client.cert.token.date => { outdated = true; late += 1; cx.label_if(replay, "older one replayed"); }
                    Some(newest) if newest == client.cert.token.date => { conflict += 1; if !known.contains(&record) { known.push(record) } }
                    _ => *known = vec![record],
                }

                if local.get(&client.key).is_some_and(|l| l.certificate.token.auth_date > client.cert.token.date) {
                    late += 1;
                }
            }

            _ => {
                local.remove(&r.key);
                remote.remove(&r.key);
            }
        }

        ensure!(success || outdated, "{} is answered with an error: {json}", show(&r));

        // Whom do lookups tell about
        for target in 0..2 {
            let theirs = remote.get(&target).cloned().unwrap_or_default();
            let ours = local.get(&target);
            let date = |c: &Client| c.certificate.token.auth_date;
            let newest = ours.map(|c| date(c)).into_iter().chain(theirs.first().map(|t| date(&t.0))).max();

            let r = ReqSpec { key: 9, seed: 1 << 63 | 77, sign: SignSpec::By(9), body: Body::Lookup { key: target, kind: None } };
            let reply = server.post(cx, path(&r.body), request_json(&r).to_string());
            let (success, json) = judge_reply(&reply, "lookup", SERVER, r.seed)?;
            ensure!(success, "lookup is answered with an error: {json}");

            let response = LookupResponse::from_json(&json).map_err(|e| Fail(e.to_string()))?;
            let Response::Success { response, .. } = response.0 else { fail!("success is an error") };

            match response {
                LookupResponseBody::Local { client, .. } => {
                    ensure!(Some(&client) == ours, "lookup gives a wrong local record");
                    ensure!(Some(date(&client)) == newest, "lookup gives the local record dated {} while the newest is dated {}", date(&client), newest.unwrap_or(0));
                }

                LookupResponseBody::Remote { client, server, .. } => {
                    ensure!(Some(date(&client)) == newest, "lookup gives the announced record dated {} while the newest is dated {}", date(&client), newest.unwrap_or(0));
                    ensure!(theirs.contains(&(client, server)), "lookup gives a wrong announced record");
                }

                LookupResponseBody::Hint { .. } => ensure!(newest.is_none(), "lookup gives hints though the client is known"),
            }
        }
    }

    // Announcements that come at once
    if let (Storage::Stored(dir), true) = (&server.storage, case.race.len() > 1) {
        use crate::shim::Sched;

        cx.label("announced at once");
        let client = 5 as KeyId;
        let router = open_router(cx, dir);
        let sched = Sched::new(case.race.len());

        let results = std::thread::scope(|scope| {
            let handles = case.race.iter().enumerate().map(|(i, date)| {
                let slot = cx.slot(i);
                let router = router.clone();
                let sched = sched.clone();
                let record = (
                    ClientSpec { key: client, cert: CertSpec::genuine(client, 101 + i as KeyId, *date), info: InfoSpec { kind: 0, address: None } }.build(),
                    ServerSpec { key: 101 + i as KeyId, address: format!("s{i}") }.build(),
                );

                scope.spawn(move || run_gated(&slot, &sched, i, router.index_remote_client(record.0, record.1)))
            }).collect::<Vec<_>>();

            let mut n = 0;
            sched.drive(|waiting| {
                let choice = case.order.get(n).copied().unwrap_or(0) as usize % waiting.len();
                n += 1;
                choice
            });

            handles.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        });

        for result in results {
            match result {
                Ok(Ok(Ok(_))) => (),
                Ok(Ok(Err(err))) => fail!("announcement which came at once with others fails: {err}"),
                Ok(Err(fail)) => return Err(fail),
                Err(_) => infra("thread"),
            }
        }

        let newest = *case.race.iter().max().unwrap();
        let found = cx.block_on(router.lookup_remote_client(&public(client), None)).map_err(|e| Fail(e.to_string()))?;

        match found {
            Some((found, _, _)) => ensure!(
                found.certificate.token.auth_date == newest,
                "announcements dated {:?} came at once, and the one dated {} is served", case.race, found.certificate.token.auth_date
            ),
            None => fail!("no record after several announcements"),
        }
    }

    if late > 0 {
        cx.nontrivial();
    }

    cx.label_if(conflict > 0, "equal dates");
    cx.label(if case.stored { "stored" } else { "in memory" });
    server.close(cx);

    Ok(())
}

/// Run the operation on the slot's own runtime under the schedule.
pub fn run_gated<T>(slot: &(tokio::runtime::Runtime, std::sync::Arc<crate::shim::Ctl>), sched: &std::sync::Arc<crate::shim::Sched>, op: usize, future: impl std::future::Future<Output = T>) -> Result<T, Fail> {
    let (rt, ctl) = slot;

    crate::gens::set_salt(sched.salt);
    ctl.set_sched(Some((sched.clone(), op)));
    ctl.arm(Fault::None);
    crate::shim::attach(Some(ctl.clone()));

    let result = guarded(|| rt.block_on(future));

    crate::shim::attach(None);
    ctl.disarm();
    ctl.set_sched(None);
    sched.done(op);

    result
}

pub fn c18() -> Check {
    Def {
        id: "C18",
        level: "exploration",
        rule: "history in which an announcement arrives after a record of the same client with a newer certificate",
        assumptions: &[
            "connection dates of a client at one server don't decrease",
            "of records with equal dates any may be served",
            "whether an outdated announcement is answered with success isn't judged",
        ],
        quick: 6_000,
        thorough: 150_000,
        shards: 8,
        gen: c18_gen,
        run: c18_run,
    }.build()
}
