//! C28: clients and servers together.

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::Arc;

use serde::{Deserialize, Serialize};

use hyperborealib::drivers::server::ServerParams;
use hyperborealib::http::client::HttpClient;
use hyperborealib::prelude::*;

use crate::dict;
use crate::engine::*;
use crate::gens::*;
use crate::live::{port, Live, Port, Running};
use crate::net::*;
use crate::refimpl;
use crate::shim::set_wall_clock;
use crate::{ensure, fail};

const BASE: u64 = 1_700_000_000;
pub const FIRST_SERVER: KeyId = 100;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Way {
    /// By the address of the server with the number.
    Server(u8),
    /// By the receiver's hyperborea address, possibly with its type.
    Client { typed: bool },
    /// By the address of the receiver's server (the first, if it has none).
    Home,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Parcel {
    pub channel: u8,
    pub payload: Blob,
    pub encoding: EncSpec,
    pub level: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act {
    Connect { client: u8, server: u8, known: bool },
    Disconnect { client: u8 },
    Announce { client: u8, at: Way },
    Lookup { client: u8, target: u8, kind: Option<u8> },
    Send { from: u8, to: u8, way: Way, parcel: Parcel },
    /// Several clients send at once to the server of the receiver.
    Burst { to: u8, channel: u8, from: Vec<u8>, size: u32 },
    Poll { client: u8, channel: u8, limit: Option<u64> },
    /// Tell the first server about the second.
    Introduce { server: u8, other: u8 },
    Traverse { server: u8 },
    Lists { client: u8, server: u8 },
    Restart { server: u8 },
    Stop { server: u8 },
    Wait(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Story {
    pub live: bool,
    pub servers: Vec<bool>,
    pub clients: Vec<InfoSpec>,
    pub acts: Vec<Act>,
}

pub const CHANNELS: [&str; 4] = ["main", "other", "a/b", ""];

pub fn story(src: &mut Src, live: bool) -> Story {
    let servers = src.vec(1, 4, |src| src.chance(1, 2));
    let clients = src.vec(2, 4, InfoSpec::gen);
    let (s, c) = (servers.len() as u64, clients.len() as u64);

    let mut acts = vec![];

    // Mostly, everyone is connected and servers know each other
    for client in 0..c {
        if src.chance(5, 6) {
            acts.push(Act::Connect { client: client as u8, server: src.below(s) as u8, known: src.bool() });
        }
    }

    for server in 0..s {
        if s > 1 && src.chance(3, 4) {
            let other = src.below(s);
            acts.push(Act::Introduce { server: server as u8, other: other as u8 });
        }
    }

    let max = if live { 18 } else { 40 };

    acts.extend(src.vec(4, max, |src| {
        let client = src.below(c) as u8;
        let server = src.below(s) as u8;
        let channel = src.weighted(&[7, 2, 1, 1]) as u8;

        let way = |src: &mut Src| match src.weighted(&[5, 2, 5]) {
            0 => Way::Home,
            1 => Way::Server(src.below(s) as u8),
            _ => Way::Client { typed: src.bool() },
        };

        match src.weighted(&[4, 2, 4, 5, 18, 3, 8, 2, 2, 2, 1, 1, 1]) {
            0 => Act::Connect { client, server, known: src.bool() },
            1 => Act::Disconnect { client },
            2 => Act::Announce { client, at: if src.chance(1, 5) { Way::Client { typed: src.bool() } } else { Way::Server(server) } },
            3 => Act::Lookup { client, target: src.below(c) as u8, kind: if src.chance(1, 3) { Some(src.below(4) as u8) } else { None } },

            4 => Act::Send {
                from: client,
                to: src.below(c) as u8,
                way: way(src),
                parcel: Parcel {
                    channel,
                    payload: { let limit = if src.chance(1, 20) { 200_000 } else { 300 }; blob(src, limit) },
                    encoding: EncSpec::gen(src),
                    level: src.below(3) as u8,
                },
            },

            5 => Act::Burst { to: client, channel, from: if let Some(n) = dict::count(src, 5, 300) { vec![src.below(c) as u8; n as usize] } else { let max = if src.chance(1, 6) { 40 } else { 4 }; src.vec(2, max, |src| src.below(c) as u8) }, size: src.below(2000) as u32 },
            6 => Act::Poll { client, channel, limit: match src.below(4) { 0 => None, 1 => Some(num(src)), _ => Some(src.below(4)) } },
            7 => Act::Introduce { server, other: src.below(s) as u8 },
            8 => Act::Traverse { server },
            9 => Act::Lists { client, server },
            10 => Act::Restart { server },
            11 => Act::Stop { server },
            _ => Act::Wait(src.below(100_000) as u32),
        }
    }));

    // Disconnected clients are looked up, at times after an announcement at their own server
    let probes = acts.iter().enumerate().rev()
        .filter_map(|(at, act)| if let Act::Disconnect { client } = act { Some((at, *client)) } else { None })
        .collect::<Vec<_>>();

    for (at, client) in probes {
        if src.bool() {
            acts.insert(at + 1, Act::Lookup { client: src.below(c) as u8, target: client, kind: None });
        }

        if src.chance(1, 3) {
            acts.insert(at, Act::Announce { client, at: Way::Server(src.below(s) as u8) });
        }
    }

    Story { live, servers, clients, acts }
}

// -------------------------------------------------------------------- servers

enum Driver {
    Mem(Arc<ServerDriver<Mem, BfsRecursionTraversal, Mem>>),
    Stored(Arc<ServerDriver<GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>>),
}

enum Host {
    Down,
    Local(Routes),
    Live(Running),
}

struct Place {
    key: KeyId,
    address: String,
    port: Option<Port>,
    storage: Storage,
    driver: Option<Driver>,
    host: Host,
}

/// Network the story takes place in.
#[derive(Clone)]
pub enum Web {
    Mem(Net),
    Live(Live),
}

macro_rules! each_driver {
    ($driver:expr, $d:ident => $e:expr) => {
        match $driver {
            Driver::Mem($d) => $e,
            Driver::Stored($d) => $e,
        }
    };
}

impl Place {
    fn start(&mut self, cx: &Cx, web: &Web) {
        let params = ServerParams { secret_key: secret(self.key), address: self.address.clone() };

        macro_rules! host {
            ($router:expr, $inbox:expr, $kind:ident) => {{
                let driver = ServerDriver::new($router, BfsRecursionTraversal, $inbox, params);

                match web {
                    Web::Mem(net) => {
                        let server = cx.block_on(ServerMiddleware::new(net.clone(), Routes::default(), driver));

                        net.add(&self.address, Node::Server(server.http_server().clone()));
                        self.host = Host::Local(server.http_server().clone());
                        self.driver = Some(Driver::$kind(server.driver()));
                    }

                    Web::Live(live) => {
                        let mut out = None;

                        self.host = Host::Live(Running::start(self.port.as_ref().map_or(SocketAddr::from(([127, 0, 0, 1], 0)), |port| port.address), || async {
                            let server = ServerMiddleware::new(live.clone(), AxumHttpServer::default(), driver).await;

                            out = Some(server.driver());
                            server.http_server().clone()
                        }));

                        self.driver = out.map(Driver::$kind);
                    }
                }
            }};
        }

        match &self.storage {
            Storage::Mem(mem) => host!(mem.clone(), mem.clone(), Mem),
            Storage::Stored(dir) => host!(open_router(cx, dir), open_inbox(cx, dir), Stored),
        }
    }

    fn stop(&mut self, web: &Web) {
        self.driver = None;
        self.host = Host::Down;

        match web {
            Web::Mem(net) => net.script(&self.address, |_, _, _| crate::net::Outcome::Refused),
            Web::Live(live) => live.renew(),
        }
    }

    fn up(&self) -> bool {
        !matches!(self.host, Host::Down)
    }
}

// ---------------------------------------------------------------------- model

#[derive(Clone, PartialEq, Debug)]
struct Letter {
    sender: Sender,
    payload: Vec<u8>,
    encoding: MessageEncoding,
}

#[derive(Default)]
struct Shelf {
    local: BTreeMap<u8, Client>,
    remote: BTreeMap<u8, (Client, Server)>,
    servers: BTreeSet<u8>,
    inbox: BTreeMap<(u8, u8), VecDeque<Letter>>,
}

struct World<H> {
    places: Vec<Place>,
    shelves: Vec<Shelf>,
    clients: Vec<InfoSpec>,
    /// Number of the server, and the connection.
    connected: Vec<Option<(u8, ConnectedClientMiddleware<H>)>>,
    http: H,
}

fn client_key(n: u8) -> KeyId {
    n as KeyId
}

impl<H: HttpClient + 'static> World<H> {
    fn server(&self, n: u8) -> Server {
        let place = &self.places[n as usize];

        Server { public_key: public(place.key), address: place.address.clone() }
    }

    fn at(&self, address: &str) -> Option<u8> {
        self.places.iter().position(|p| p.address == address).map(|n| n as u8)
    }

    /// Records the servers reachable from the client's one may give.
    fn findable(&self, from: u8, target: u8, kind: Option<ClientType>) -> Vec<(Client, Server)> {
        let Some((start, _)) = &self.connected[from as usize] else { return vec![] };
        let (mut queue, mut seen, mut found) = (VecDeque::from([*start]), BTreeSet::new(), vec![]);

        while let Some(n) = queue.pop_front() {
            if !seen.insert(n) || !self.places[n as usize].up() { continue; }

            let shelf = &self.shelves[n as usize];
            let fits = |c: &Client| kind.is_none_or(|k| k == c.info.client_type);
            let date = |c: &Client| c.certificate.token.auth_date;

            let local = shelf.local.get(&target).filter(|c| fits(c));
            let remote = shelf.remote.get(&target).filter(|c| fits(&c.0));

            if local.is_none() && remote.is_none() {
                queue.extend(shelf.servers.iter());
                continue;
            }

            if let Some(local) = local {
                if remote.is_none_or(|r| date(&r.0) <= date(local)) {
                    found.push((local.clone(), self.server(n)));
                }
            }

            if let Some(remote) = remote {
                if local.is_none_or(|l| date(l) <= date(&remote.0)) {
                    found.push(remote.clone());
                }
            }
        }

        found
    }

    fn reaches(&self, n: u8) -> bool {
        self.places[n as usize].up()
    }

    fn home(&self, client: u8) -> u8 {
        self.connected[client as usize].as_ref().map_or(0, |c| c.0)
    }

    /// Where the way leads: server's number if it's certain, None if to nowhere.
    fn destination(&self, from: u8, to: u8, way: &Way) -> Result<Option<u8>, ()> {
        match way {
            Way::Server(n) => Ok(Some(*n)),
            Way::Home => Ok(Some(self.home(to))),

            Way::Client { typed } => {
                let kind = typed.then(|| client_type(self.clients[to as usize].kind));

                let servers = self.findable(from, to, kind).into_iter()
                    .map(|(_, server)| self.at(&server.address))
                    .collect::<BTreeSet<_>>();

                match servers.len() {
                    0 => Ok(None),
                    1 => servers.into_iter().next().unwrap().map(Some).ok_or(()),
                    _ => Err(()),
                }
            }
        }
    }

    fn uri(&self, to: u8, way: &Way) -> String {
        match way {
            Way::Server(n) => format!("http://{}", self.places[*n as usize].address),
            Way::Home => format!("http://{}", self.places[self.home(to) as usize].address),

            Way::Client { typed } => {
                let kind = if *typed { format!("{}:", TYPE_NAMES[self.clients[to as usize].kind as usize % 4]) } else { String::new() };

                format!("hyperborea://{kind}{}", refimpl::public_b64(client_key(to)))
            }
        }
    }
}

impl<H> World<H> {
    /// Number of messages polled.
    fn judge_poll(&mut self, what: &str, server: u8, client: u8, channel: u8, limit: Option<u64>, (messages, remaining): (Vec<MessageInfo>, u64)) -> Result<usize, Fail> {
        let queue = self.shelves[server as usize].inbox.entry((client, channel)).or_default();
        let n = limit.unwrap_or(u64::MAX).min(queue.len() as u64) as usize;

        ensure!(messages.len() == n, "{what} gives {} of {} messages", messages.len(), queue.len());

        for info in &messages {
            let letter = queue.pop_front().unwrap();
            judge_letter(what, info, CHANNELS[channel as usize], &letter, client)?;
        }

        ensure!(remaining == queue.len() as u64, "{what} tells {remaining} remaining messages instead of {}", queue.len());

        Ok(n)
    }
}

fn judge_letter(what: &str, info: &MessageInfo, channel: &str, letter: &Letter, receiver: u8) -> Verdict {
    ensure!(info.sender == letter.sender, "{what} names the sender {}, the true one: {}", short(&info.sender), short(&letter.sender));
    ensure!(info.channel == channel, "{what} is in the channel {:?} instead of {channel:?}", info.channel);

    // Whoever has received the message can check all of this
    let client = &info.sender.client;
    let server = &info.sender.server;

    ensure!(client.certificate.validate(&client.public_key, &server.public_key).unwrap_or(false), "{what}: the sender's certificate isn't valid");

    match info.message.read(&secret(client_key(receiver)), &client.public_key) {
        Ok(payload) => ensure!(payload == letter.payload, "{what} reads as {} instead of {}", short(&payload), short(&letter.payload)),
        Err(err) => fail!("{what} can't be read: {err}"),
    }

    Ok(())
}

fn play<H: HttpClient + 'static>(story: &Story, cx: &mut Cx, http: H, web: &Web, seen: &mut dyn FnMut(&Cx, &[PathBuf])) -> Verdict {
    let mut world = World { places: vec![], shelves: vec![], clients: story.clients.clone(), connected: vec![], http: http.clone() };

    for (i, stored) in story.servers.iter().enumerate() {
        let (address, port) = match web {
            Web::Mem(_) => (format!("s{i}.test:80"), None),
            Web::Live(_) => { let port = port(cx.shard); (port.address.to_string(), Some(port)) }
        };

        let mut place = Place {
            key: FIRST_SERVER + i as KeyId,
            address,
            port,
            storage: if *stored { Storage::Stored(cx.fresh_dir()) } else { Storage::Mem(Mem::default()) },
            driver: None,
            host: Host::Down,
        };

        place.start(cx, web);
        world.places.push(place);
        world.shelves.push(Shelf::default());
    }

    world.connected = story.clients.iter().map(|_| None).collect();

    let verdict = enact(story, cx, &mut world, web, seen);

    set_wall_clock(0);

    for place in &mut world.places {
        place.driver = None;
        place.host = Host::Down;

        if let Storage::Stored(dir) = &place.storage {
            cx.remove_dir(dir);
        }
    }

    verdict
}

fn enact<H: HttpClient + 'static>(story: &Story, cx: &mut Cx, world: &mut World<H>, web: &Web, seen: &mut dyn FnMut(&Cx, &[PathBuf])) -> Verdict {
    let mut clock = BASE;
    let (mut polled, mut by_address, mut moved) = (0, 0, 0);
    let mut identities = BTreeMap::<u8, Client>::new();

    let clients = story.clients.len() as u8;
    let servers = story.servers.len() as u8;

    let dirs = world.places.iter()
        .filter_map(|place| match &place.storage {
            Storage::Stored(dir) => Some(dir.clone()),
            Storage::Mem(_) => None,
        })
        .collect::<Vec<_>>();

    for (i, act) in story.acts.iter().enumerate() {
        clock += 1;
        set_wall_clock(clock as i64);
        cx.exec();

        let what = format!("act {i} {}", short(act));

        macro_rules! client { ($n:expr) => {{ if *$n >= clients { continue; } *$n }} }
        macro_rules! server { ($n:expr) => {{ if *$n >= servers { continue; } *$n }} }

        // Success exactly if expected
        macro_rules! judge {
            ($result:expr, $expected:expr) => {
                match (&$result, $expected) {
                    (Ok(_), true) | (Err(_), false) => (),
                    (Ok(_), false) => fail!("{what} succeeds though it can't"),
                    (Err(err), true) => fail!("{what} fails: {err}"),
                }
            };
        }

        match act {
            Act::Wait(seconds) => clock += *seconds as u64,

            Act::Connect { client, server, known } => {
                let (c, s) = (client!(client), server!(server));
                let middleware = ClientMiddleware::new(world.http.clone(), ClientDriver::new(story.clients[c as usize].build(), secret(client_key(c))));
                let server = world.server(s);

                let result = if *known {
                    cx.block_on(middleware.connect_to(&server.address, server.public_key.clone()))
                } else {
                    cx.block_on(middleware.connect(&server.address))
                };

                judge!(result, world.reaches(s));

                if let Ok(connected) = result {
                    ensure!(connected.connected_server() == &server, "{what}: connected to {}", short(connected.connected_server()));

                    let record = connected.get_client();
                    ensure!(record.certificate.token.auth_date == clock, "{what}: certificate has another date");
                    ensure!(record.public_key == public(client_key(c)) && record.info == story.clients[c as usize].build(), "{what}: client calls itself {}", short(&record));
                    ensure!(
                        record.certificate.token.public_key == server.public_key
                            && refimpl::verify(client_key(c), &record.certificate.token.to_bytes(), &record.certificate.sign),
                        "{what}: certificate isn't the client's one for the server"
                    );

                    identities.insert(c, record.clone());

                    world.shelves[s as usize].local.insert(c, record);
                    moved += world.connected[c as usize].as_ref().is_some_and(|old| old.0 != s) as u32;
                    world.connected[c as usize] = Some((s, connected));
                }
            }

            Act::Disconnect { client } => {
                let c = client!(client);
                let Some((s, connected)) = world.connected[c as usize].clone() else { continue };
                let result = cx.block_on(connected.disconnect());

                judge!(result, world.reaches(s));

                if result.is_ok() {
                    world.connected[c as usize] = None;
                    world.shelves[s as usize].local.remove(&c);
                    world.shelves[s as usize].remote.remove(&c);
                }
            }

            Act::Announce { client, at } => {
                let c = client!(client);
                let Some((s, connected)) = world.connected[c as usize].clone() else { continue };

                // By its own address: to the server it's found at
                if let Way::Server(n) = at { server!(n); }
                let Ok(destination) = world.destination(c, c, at) else { continue };

                let result = cx.block_on(connected.announce(world.uri(c, at)));

                judge!(result, destination.is_some_and(|n| world.reaches(n)));

                if let (Ok(()), Some(n)) = (result, destination) {
                    let record = (identities[&c].clone(), world.server(s));
                    let shelf = &mut world.shelves[n as usize];
                    let newer = shelf.remote.get(&c).is_some_and(|old| old.0.certificate.token.auth_date > record.0.certificate.token.auth_date);

                    if !newer {
                        shelf.remote.insert(c, record);
                    }
                }
            }

            Act::Lookup { client, target, kind } => {
                let (c, t) = (client!(client), client!(target));
                let Some((s, connected)) = world.connected[c as usize].clone() else { continue };
                let kind = kind.map(client_type);
                let records = world.findable(c, t, kind);

                let result = bounded("lookup", || cx.block_on(connected.lookup(public(client_key(t)), kind)))?;

                judge!(result, world.reaches(s));

                match result {
                    Ok(Some((record, server, available))) => {
                        ensure!(records.iter().any(|r| r.0 == record && r.1 == server), "{what} finds {} at {}, known: {}", short(&record), short(&server), short(&records));
                        ensure!(available, "{what}: client isn't available");
                        cx.label("client found");
                    }

                    Ok(None) => {
                        ensure!(records.is_empty(), "{what} finds nothing, known: {}", short(&records));
                        cx.label("client not found");
                    }

                    Err(_) => (),
                }
            }

            Act::Send { from, to, way, parcel } => {
                let (f, t) = (client!(from), client!(to));
                let Some((s, connected)) = world.connected[f as usize].clone() else { continue };

                if let Way::Server(n) = way { server!(n); }
                let Ok(destination) = world.destination(f, t, way) else { continue };

                let payload = parcel.payload.bytes();
                let encoding = parcel.encoding.build();

                let message = match Message::create(&secret(client_key(f)), &public(client_key(t)), &payload, encoding, LEVELS[parcel.level as usize % 3]) {
                    Ok(message) => message,
                    Err(err) => fail!("{what}: message can't be made: {err}"),
                };

                let channel = CHANNELS[parcel.channel as usize % 4];
                let result = cx.block_on(connected.send(world.uri(t, way), public(client_key(t)), channel, message));

                judge!(result, destination.is_some_and(|n| world.reaches(n)));

                if let (Ok(()), Some(n)) = (&result, destination) {
                    by_address += matches!(way, Way::Client { .. }) as u32;

                    let letter = Letter { sender: Sender { client: identities[&f].clone(), server: world.server(s) }, payload, encoding };
                    world.shelves[n as usize].inbox.entry((t, parcel.channel % 4)).or_default().push_back(letter);
                }
            }

            Act::Burst { to, channel, from, size } => {
                let t = client!(to);
                let Some((n, receiver)) = world.connected[t as usize].clone() else { continue };
                if !world.reaches(n) { continue; }

                let channel = *channel % 4;
                let name = CHANNELS[channel as usize];
                let uri = format!("http://{}", world.places[n as usize].address);
                let (mut letters, mut sends) = (vec![], vec![]);

                for (j, f) in from.iter().enumerate() {
                    let f = client!(f);
                    let Some((s, connected)) = world.connected[f as usize].clone() else { continue };

                    let payload = burst_payload(i, j, *size).bytes();
                    let encoding = EncSpec { encryption: (i + j) as u8 % 3, compression: j as u8 % 3 }.build();

                    let message = Message::create(&secret(client_key(f)), &public(client_key(t)), &payload, encoding, CompressionLevel::Fast)
                        .map_err(|err| Fail(format!("{what}: message can't be made: {err}")))?;

                    letters.push(Letter { sender: Sender { client: identities[&f].clone(), server: world.server(s) }, payload, encoding });

                    let (uri, key) = (uri.clone(), public(client_key(t)));
                    sends.push(async move { connected.send(uri, key, name, message).await });
                }

                for result in cx.block_on(together(sends)) {
                    judge!(result, true);
                }

                // Those sent at once may be in any order: take them all
                let result = cx.block_on(receiver.poll(name, None));
                judge!(result, true);

                let (messages, remaining) = result.unwrap_or_default();
                let before = world.shelves[n as usize].inbox.remove(&(t, channel)).unwrap_or_default();

                ensure!(remaining == 0 && messages.len() == before.len() + letters.len(), "{what}: {} messages polled and {remaining} remain, {} were sent", messages.len(), before.len() + letters.len());

                for (info, letter) in messages.iter().zip(&before) {
                    judge_letter(&what, info, name, letter, t)?;
                }

                for info in &messages[before.len()..] {
                    let at = letters.iter().position(|letter| judge_letter(&what, info, name, letter, t).is_ok());

                    match at {
                        Some(at) => { letters.remove(at); }
                        None => fail!("{what}: {} isn't any of the messages sent at once (or comes twice)", short(info)),
                    }
                }

                cx.label("sent at once");
            }

            Act::Poll { client, channel, limit } => {
                let c = client!(client);
                let Some((s, connected)) = world.connected[c as usize].clone() else { continue };
                let channel = *channel % 4;
                let name = CHANNELS[channel as usize];

                let result = cx.block_on(connected.poll(name, *limit));

                judge!(result, world.reaches(s));

                if let Ok(answer) = result {
                    polled += world.judge_poll(&what, s, c, channel, *limit, answer)?;
                }
            }

            Act::Introduce { server, other } => {
                let (s, o) = (server!(server), server!(other));

                let request = AnnounceRequest::server(&secret(9), world.server(o));
                let seed = request.0.proof_seed;

                let result = cx.block_on(world.http.post_request::<AnnounceRequest, AnnounceResponse>(
                    format!("http://{}/api/v1/announce", world.places[s as usize].address),
                    request
                ));

                judge!(result, world.reaches(s));

                if let Ok(response) = result {
                    ensure!(response.0.status() == ResponseStatus::Success && response.validate(seed).unwrap_or(false), "{what} is answered with {}", short(&response));
                    world.shelves[s as usize].servers.insert(o);
                }
            }

            Act::Traverse { server } => {
                let s = server!(server);
                let Some(driver) = &world.places[s as usize].driver else { continue };
                let http = world.http.clone();

                bounded("traversal", || each_driver!(driver, d => cx.block_on(d.traversal().traverse(http, d))))?;

                let (mut queue, mut all, mut seen) = (world.shelves[s as usize].servers.iter().copied().collect::<VecDeque<_>>(), BTreeSet::new(), BTreeSet::new());

                while let Some(n) = queue.pop_front() {
                    all.insert(n);

                    if seen.insert(n) && world.reaches(n) {
                        queue.extend(world.shelves[n as usize].servers.iter());
                    }
                }

                let known = cx.block_on(async { each_driver!(driver, d => d.router().servers().await.map_err(|e| e.to_string())) })
                    .map_err(|err| Fail(format!("{what}: {err}")))?;

                let known = known.iter().map(|k| (0..servers).find(|n| &world.server(*n) == k)).collect::<Option<BTreeSet<_>>>();

                // The server's own record may be left out
                let with_own = |set: &BTreeSet<u8>| set.iter().copied().chain([s]).collect::<BTreeSet<_>>();

                match known {
                    Some(known) if with_own(&known) == with_own(&all) => world.shelves[s as usize].servers = known,
                    other => fail!("{what}: known servers {} instead of {}", short(&other), short(&all)),
                }
            }

            Act::Lists { client, server } => {
                let (c, s) = (client!(client), server!(server));
                let middleware = ClientMiddleware::new(world.http.clone(), ClientDriver::new(story.clients[c as usize].build(), secret(client_key(c))));
                let address = world.places[s as usize].address.clone();

                let info = cx.block_on(middleware.get_info(&address));
                judge!(info, world.reaches(s));
                if let Ok(info) = info {
                    ensure!(info.public_key == world.server(s).public_key, "{what}: info names another server");
                }

                let list = cx.block_on(middleware.get_clients(&address));
                judge!(list, world.reaches(s));

                if let Ok(list) = list {
                    let expected = world.shelves[s as usize].local.values().collect::<Vec<_>>();
                    ensure!(list.len() == expected.len() && expected.iter().all(|c| list.contains(c)), "{what}: clients {} instead of {}", short(&list), short(&expected));
                }

                let list = cx.block_on(middleware.get_servers(&address));
                judge!(list, world.reaches(s));

                if let Ok(list) = list {
                    let expected = world.shelves[s as usize].servers.iter().map(|n| world.server(*n)).collect::<Vec<_>>();
                    ensure!(list.len() == expected.len() && expected.iter().all(|c| list.contains(c)), "{what}: servers {} instead of {}", short(&list), short(&expected));
                }
            }

            Act::Restart { server } => {
                let s = server!(server);
                world.places[s as usize].stop(web);
                world.places[s as usize].start(cx, web);
                cx.label("server restarted");
            }

            Act::Stop { server } => {
                let s = server!(server);
                world.places[s as usize].stop(web);
                cx.label("server stopped");
            }
        }

        seen(cx, &dirs);
    }

    // Everything sent is there
    for c in 0..clients {
        let Some((s, connected)) = world.connected[c as usize].clone() else { continue };
        if !world.reaches(s) { continue; }

        for channel in 0..CHANNELS.len() as u8 {
            let what = format!("last poll of {:?} by the client {c}", CHANNELS[channel as usize]);

            match cx.block_on(connected.poll(CHANNELS[channel as usize], None)) {
                Ok(answer) => polled += world.judge_poll(&what, s, c, channel, None, answer)?,
                Err(err) => fail!("{what} fails: {err}"),
            }
        }
    }

    seen(cx, &dirs);

    cx.label_if(polled > 0, "messages polled");
    cx.label_if(by_address > 0, "sent to a client address");
    cx.label_if(moved > 0, "client moved");

    cx.label_if(polled > 5, "many messages polled");

    if polled > 1 || (by_address > 0 && polled > 0) {
        cx.nontrivial();
    }

    Ok(())
}

pub fn burst_payload(act: usize, n: usize, size: u32) -> Blob {
    Blob::Echo { seed: (act * 10 + n) as u64, len: size, times: 1 + n as u32 % 2 }
}

/// Run all the futures at the same time, in one thread.
pub async fn together<F: std::future::Future>(futures: Vec<F>) -> Vec<F::Output> {
    let mut futures = futures.into_iter().map(|f| (Box::pin(f), None)).collect::<Vec<_>>();

    std::future::poll_fn(|cx| {
        let mut pending = false;

        for (future, output) in &mut futures {
            if output.is_none() {
                match future.as_mut().poll(cx) {
                    std::task::Poll::Ready(value) => *output = Some(value),
                    std::task::Poll::Pending => pending = true,
                }
            }
        }

        if pending { std::task::Poll::Pending } else { std::task::Poll::Ready(()) }
    }).await;

    futures.into_iter().filter_map(|(_, output)| output).collect()
}

/// Play the story; `seen` is called after each act with the network's log at hand.
pub fn perform(story: &Story, cx: &mut Cx, net: Option<&Net>, seen: &mut dyn FnMut(&Cx, &[PathBuf])) -> Verdict {
    match net {
        Some(net) => play(story, cx, net.clone(), &Web::Mem(net.clone()), seen),

        None => {
            let live = Live::default();
            play(story, cx, live.clone(), &Web::Live(live), seen)
        }
    }
}

fn c28_gen(src: &mut Src) -> Story {
    let live = src.chance(1, 3);

    story(src, live)
}

fn c28_run(story: &Story, cx: &mut Cx) -> Verdict {
    cx.label(if story.live { "over HTTP" } else { "in memory" });

    let net = (!story.live).then(|| Net::new(100_000));

    perform(story, cx, net.as_ref(), &mut |_, _| ())
}

pub fn c28() -> Check {
    Def {
        id: "C28",
        level: "exploration",
        rule: "history in which at least two messages were polled, or one and some were sent to a client's address",
        assumptions: &[
            "a third of the histories run over HTTP on the loopback interface, the others over an in-memory network",
            "connections have distinct dates, and the clock doesn't go back",
        ],
        quick: 12_000,
        thorough: 300_000,
        shards: 8,
        gen: c28_gen,
        run: c28_run,
    }.build()
}
