//! C34: dates of certificates and stored messages.

use std::collections::{BTreeMap, VecDeque};

use serde::{Deserialize, Serialize};
use serde_json::Value as Json;

use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;

use crate::engine::*;
use crate::gens::*;
use crate::net::*;
use crate::wire::*;
use crate::{dict, ensure, fail, refimpl};

use super::server::{judge_reply, path};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Act34 {
    /// The clock gets set; this many seconds pass at each reading of it.
    Clock { at: u64, nanos: u32, tick: u8 },
    /// Something dated is made.
    Make { what: u8, client: KeyId, server: KeyId },
    Connect { client: u8, server: u8, info: InfoSpec },
    /// Message to the client's inbox, from a connected client if there's one.
    Send { by: u8, server: u8, receiver: u8, channel: u8 },
    Poll { server: u8, receiver: u8, channel: u8, limit: Option<u64> },
    Reopen(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C34 {
    acts: Vec<Act34>,
}

const CLIENTS: u64 = 3;
const SERVERS: u64 = 2;
const FIRST: KeyId = 100;
const ADDRESSES: [&str; 2] = ["first.test:8001", "second.test:8002"];
const CHANNELS: [&str; 2] = ["main", "other channel"];
const PLAIN: EncSpec = EncSpec { encryption: 0, compression: 0 };

fn moment(src: &mut Src) -> u64 {
    const NOW: u64 = 1_800_000_000;

    let at = match src.weighted(&[6, 3, 3, 2]) {
        0 => NOW + src.below(1000),
        1 => (1u64 << src.below(60)).saturating_sub(src.below(3)),
        2 => NOW - src.below(400_000_000),
        _ => dict::number(src).unwrap_or_else(|| num(src)),
    };

    // What a clock can show
    at.min(1 << 60)
}

fn c34_gen(src: &mut Src) -> C34 {
    let clock = |src: &mut Src| Act34::Clock {
        at: moment(src),
        nanos: *src.pick(&[0, 1, 500_000_000, 999_999_999]),
        tick: if src.chance(1, 3) { src.below(4) as u8 } else { 0 },
    };

    let mut acts = vec![clock(src)];

    acts.extend(src.vec(3, 20, |src| match src.weighted(&[5, 2, 3, 7, 5, 1]) {
        0 => clock(src),
        1 => Act34::Make { what: src.below(5) as u8, client: key(src), server: key(src) },
        2 => Act34::Connect { client: src.below(CLIENTS) as u8, server: src.below(SERVERS) as u8, info: InfoSpec::gen(src) },

        3 => Act34::Send {
            by: src.below(CLIENTS + 1) as u8,
            server: src.weighted(&[3, 1]) as u8,
            receiver: src.weighted(&[3, 1]) as u8,
            channel: src.weighted(&[4, 1]) as u8,
        },

        4 => Act34::Poll {
            server: src.weighted(&[3, 1]) as u8,
            receiver: src.weighted(&[3, 1]) as u8,
            channel: src.weighted(&[4, 1]) as u8,
            limit: if src.bool() { None } else { Some(src.below(4)) },
        },

        _ => Act34::Reopen(src.below(SERVERS) as u8),
    }));

    C34 { acts }
}

type Connected = ConnectedClientMiddleware<Net>;

struct Sent {
    message: Message,
    from: u64,
    to: u64,
    certificate: Option<ConnectionCertificate>,
}

fn message(n: usize) -> Message {
    Message { content: format!("message {n}"), sign: format!("{n}"), encoding: PLAIN.build() }
}

fn ask(server: &TestServer, cx: &Cx, r: &ReqSpec, what: &str) -> Result<Json, Fail> {
    let reply = server.post(cx, path(&r.body), request_json(r).to_string());
    let (success, json) = judge_reply(&reply, what, server.key, r.seed)?;

    ensure!(success, "{what} is answered with an error: {json}");

    Ok(json)
}

fn c34_run(case: &C34, cx: &mut Cx) -> Verdict {
    let ctl = cx.ctl.clone();
    let result = history(case, cx);
    ctl.shared.clock.unset();
    result
}

fn history(case: &C34, cx: &mut Cx) -> Verdict {
    let net = Net::new(1000);
    let ctl = cx.ctl.clone();

    let mut servers = ADDRESSES.iter().enumerate()
        .map(|(i, address)| TestServer::new(cx, FIRST + i as KeyId, address, true, net.clone()))
        .collect::<Vec<_>>();

    let register = |servers: &[TestServer]| for server in servers {
        net.add(&server.address, Node::Server(server.routes.clone()));
    };

    register(&servers);

    let mut connected = BTreeMap::<u8, (Connected, u64, u64)>::new();
    let mut queues = BTreeMap::<(u8, u8, u8), VecDeque<Sent>>::new();
    let (mut moves, mut aged, mut last) = (0, 0, 0);

    for (n, act) in case.acts.iter().enumerate() {
        let what = format!("act {n}");
        let from = ctl.shared.clock.now();

        macro_rules! dated {
            ($date:expr, $from:expr, $to:expr, $($what:tt)*) => {{
                let (date, from, to) = ($date, $from, $to);
                ensure!(from <= date && date <= to, "{what}: {} is dated {date} but it was made from {from} to {to}", format_args!($($what)*));
            }};
        }

        match act {
            Act34::Clock { at, nanos, tick } => {
                cx.label_if(moves > 0 && *at < last, "clock moved back");
                ctl.shared.clock.set(*at as i64, *nanos as i64, *tick as i64);
                last = *at;
                moves += 1;
            }

            Act34::Make { what: kind, client, server } => {
                let certificate = |token: ConnectionToken, sign: Vec<u8>| -> Verdict {
                    dated!(token.auth_date, from, ctl.shared.clock.now(), "certificate");
                    ensure!(token.public_key == public(*server), "{what}: certificate is made for another server");

                    let bytes = [&token.auth_date.to_be_bytes()[..], &refimpl::public_bytes(*server)[..]].concat();
                    ensure!(refimpl::verify(*client, &bytes, &sign), "{what}: certificate isn't signed by its client");

                    Ok(())
                };

                let info = InfoSpec { kind: 0, address: None }.build();

                match kind {
                    0 => {
                        let token = cx.block_on(async { ConnectionToken::now(public(*server)) });
                        dated!(token.auth_date, from, ctl.shared.clock.now(), "connection token");
                    }

                    1 => {
                        let made = cx.block_on(async { ConnectionCertificate::new(&secret(*client), public(*server)) });
                        certificate(made.token, made.sign)?;
                    }

                    2 => {
                        let made = cx.block_on(async { ConnectRequestBody::new(&secret(*client), public(*server), info) });
                        certificate(made.certificate.token, made.certificate.sign)?;
                    }

                    3 => {
                        let made = cx.block_on(async { ConnectRequest::new(&secret(*client), public(*server), info) });
                        let made = made.0.request.certificate;
                        certificate(made.token, made.sign)?;
                    }

                    _ => {
                        let sender = Sender {
                            client: ClientSpec { key: *client, cert: CertSpec::genuine(*client, *server, 7), info: InfoSpec { kind: 0, address: None } }.build(),
                            server: ServerSpec { key: *server, address: String::from("somewhere") }.build(),
                        };

                        let made = cx.block_on(async { MessageInfo::now(sender, "channel", message(n)) });
                        dated!(made.received_at, from, ctl.shared.clock.now(), "message information");
                    }
                }

                cx.exec();
            }

            Act34::Connect { client, server, info } => {
                let at = &servers[*server as usize];
                let middleware = ClientMiddleware::new(net.clone(), ClientDriver::new(info.build(), secret(*client as KeyId)));

                let result = cx.block_on(middleware.connect(at.address.clone()))
                    .map_err(|err| Fail(format!("{what}: connecting fails: {err}")))?;

                let to = ctl.shared.clock.now();
                let certificate = result.connection_certificate().clone();

                dated!(certificate.token.auth_date, from, to, "connection certificate");

                let Reply::Json(list) = at.get(cx, "/api/v1/clients") else { fail!("{what}: clients aren't listed") };
                let list = serde_json::from_str::<Json>(&list).ok().and_then(|list| Vec::<Client>::from_json(&list["clients"]).ok()).unwrap_or_default();
                let held = list.iter().find(|c| c.public_key == public(*client as KeyId));

                ensure!(held.is_some_and(|c| c.certificate == certificate), "{what}: the server holds {} and the client {}", short(&held.map(|h| &h.certificate)), short(&certificate));

                connected.insert(*client, (result, from, to));
                cx.exec();
            }

            Act34::Send { by, server, receiver, channel } => {
                let at = &servers[*server as usize];
                let target = *receiver as KeyId;
                let sent = message(n);

                let certificate = match connected.get(by) {
                    Some((client, ..)) => {
                        cx.block_on(client.send(format!("http://{}", at.address), public(target), CHANNELS[*channel as usize], sent.clone()))
                            .map_err(|err| Fail(format!("{what}: sending fails: {err}")))?;

                        Some(client.connection_certificate().clone())
                    }

                    None => {
                        let key = 20 + *by as KeyId;

                        let sender = SenderSpec {
                            client: ClientSpec { key, cert: CertSpec::genuine(key, FIRST, 7), info: InfoSpec { kind: 0, address: None } },
                            server: ServerSpec { key: FIRST, address: String::from(ADDRESSES[0]) },
                        };

                        let body = Body::Send {
                            sender,
                            receiver: target,
                            channel: String::from(CHANNELS[*channel as usize]),
                            message: MessageSpec { content: sent.content.clone(), sign: sent.sign.clone(), encoding: PLAIN },
                        };

                        ask(at, cx, &ReqSpec { key, seed: 1 << 63 | n as u64, sign: SignSpec::By(key), body }, &what)?;

                        None
                    }
                };

                cx.label(if certificate.is_some() { "sent by a client" } else { "sent by hand" });
                cx.label_if(ctl.shared.clock.now() > from, "clock goes on");

                queues.entry((*server, *receiver, *channel)).or_default().push_back(Sent { message: sent, from, to: ctl.shared.clock.now(), certificate });
                cx.exec();
            }

            Act34::Poll { server, receiver, channel, limit } => {
                let at = &servers[*server as usize];
                let key = *receiver as KeyId;
                let body = Body::Poll { channel: String::from(CHANNELS[*channel as usize]), limit: *limit };
                let json = ask(at, cx, &ReqSpec { key, seed: 1 << 63 | n as u64, sign: SignSpec::By(key), body }, &what)?;

                let response = PollResponse::from_json(&json).map_err(|err| Fail(format!("{what}: {err}")))?;
                let Response::Success { response, .. } = response.0 else { fail!("{what}: success is an error") };

                let queue = queues.entry((*server, *receiver, *channel)).or_default();
                let expected = limit.unwrap_or(u64::MAX).min(queue.len() as u64) as usize;

                ensure!(response.messages.len() == expected, "{what}: {} messages are polled instead of {expected}", response.messages.len());

                for info in response.messages {
                    let sent = queue.pop_front().unwrap();

                    ensure!(info.message == sent.message, "{what}: {} is polled instead of {}", short(&info.message), short(&sent.message));
                    dated!(info.received_at, sent.from, sent.to, "message {}", sent.message.sign);

                    if let Some(certificate) = sent.certificate {
                        ensure!(info.sender.client.certificate == certificate, "{what}: sender's certificate {} isn't the one of its connection {}", short(&info.sender.client.certificate), short(&certificate));
                    }

                    if sent.to < from || from < sent.from {
                        aged += 1;
                    }
                }

                cx.exec();
            }

            Act34::Reopen(server) => {
                servers[*server as usize].reopen(cx, net.clone());
                register(&servers);
                cx.label("server started anew");
            }
        }

        // Dates of connections stay
        for (client, from, to) in connected.values() {
            dated!(client.connection_certificate().token.auth_date, *from, *to, "connection certificate");
            ensure!(&client.get_client().certificate == client.connection_certificate(), "{what}: the client presents another certificate than it has");
        }
    }

    if moves > 1 && aged > 0 {
        cx.nontrivial();
    }

    for server in servers {
        server.close(cx);
    }

    Ok(())
}

pub fn c34() -> Check {
    Def {
        id: "C34",
        level: "exploration",
        rule: "history in which a message is polled when the clock shows another date than at its arrival",
        assumptions: &[
            "the wall clock shows dates from 1970 on",
            "if the clock goes on within an operation any of the dates it has shown is right",
        ],
        quick: 4_000,
        thorough: 60_000,
        shards: 8,
        gen: c34_gen,
        run: c34_run,
    }.build()
}
