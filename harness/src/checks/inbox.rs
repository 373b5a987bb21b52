//! C21..C24: the stored inbox.

use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use serde::{Deserialize, Serialize};

use hyperborealib::prelude::*;

use crate::checks::server::{run_gated, ERRNOS};
use crate::dict;
use crate::engine::*;
use crate::gens::*;
use crate::net::*;
use crate::refimpl;
use crate::shim::{self, Fault, Kind, Sched};
use crate::{ensure, fail};

type Queue = (KeyId, String);

/// Message that can be told from all the others.
fn message(id: u64) -> Message {
    Message { content: format!("message {id}"), sign: format!("{id}"), encoding: MessageEncoding::default() }
}

thread_local! {
    // Same in all the threads and cases
    static SENDERS: Vec<Sender> = {
        let salt = crate::gens::salt();
        crate::gens::set_salt(0);

        let senders = (0..3).map(|k: u16| SenderSpec {
            client: ClientSpec { key: k, cert: CertSpec::genuine(k, 100, 7), info: InfoSpec { kind: 0, address: None } },
            server: ServerSpec { key: 100, address: format!("server {k}") },
        }.build()).collect();

        crate::gens::set_salt(salt);
        senders
    };
}

fn sender(n: u64) -> Sender {
    SENDERS.with(|s| s[n as usize % 3].clone())
}

fn id_of(info: &MessageInfo) -> Option<u64> {
    info.message.sign.parse().ok().filter(|id| info.message == message(*id) && info.sender == sender(*id))
}

async fn send(inbox: &StoredQueueMessagesInbox, queue: &Queue, id: u64) -> Result<(), String> {
    inbox.add_message(sender(id), public(queue.0), queue.1.clone(), message(id)).await.map_err(|e| e.to_string())
}

async fn poll(inbox: &StoredQueueMessagesInbox, queue: &Queue, limit: Option<u64>) -> Result<(Vec<MessageInfo>, u64), String> {
    inbox.poll_messages(public(queue.0), queue.1.clone(), limit).await.map_err(|e| e.to_string())
}

fn ids(queue: &Queue, list: &[MessageInfo]) -> Result<Vec<u64>, Fail> {
    list.iter().map(|info| {
        ensure!(info.channel == queue.1, "message polled from channel {:?} is of channel {:?}", queue.1, info.channel);
        id_of(info).ok_or_else(|| Fail(format!("polled message isn't what was sent: {}", short(info))))
    }).collect()
}

// ----------------------------------------------------------------------- C21

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act21 {
    Send { sender: SenderSpec, receiver: KeyId, channel: u8, message: MessageSpec },
    Bulk { receiver: KeyId, channel: u8, count: u32 },
    /// The last message sent, some more times, to its queue or another one.
    Again { times: u8, to: Option<(KeyId, u8)> },
    Poll { receiver: KeyId, channel: u8, limit: Option<u64> },
    /// With a limit relative to the number of stored messages.
    Near { receiver: KeyId, channel: u8, delta: i8 },
    Reopen,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C21 {
    channels: Vec<String>,
    acts: Vec<Act21>,
}

fn c21_gen(src: &mut Src) -> C21 {
    let channels = src.vec(1, 3, |src| if src.chance(1, 12) { refimpl::public_b64(src.below(3) as KeyId) } else { text(src, 40) });
    let mut channels = channels;

    // One channel that looks like another one
    if src.chance(1, 6) {
        let of = src.below(channels.len() as u64) as usize;
        channels.push(like(&channels[of], src.below(13) as u8));
    }

    let n = channels.len() as u64;

    // At times a queue of some hundreds
    let hinted = dict::count(src, 20, 20_000);

    if hinted.is_some() || src.chance(1, 150) {
        let (receiver, channel) = (pool_key_or_twin(src, 3), src.below(n) as u8);
        let other = if receiver == 0 { TWIN } else { 0 };
        let count = match hinted {
            Some(n) => n,
            // Index longer than 16 bits can tell
            None if src.chance(1, 6) => 8190 + src.below(60),
            None if src.chance(1, 8) => 1000 + src.below(1500),
            None => 200 + src.below(400),
        } as u32;

        // Few ones, some of them, or almost all
        let limit = |src: &mut Src| Some(match src.below(4) {
            0 => src.below(5),
            1 => (count as u64).saturating_sub(src.below(10)),
            _ => src.below(count as u64 / 2 + 1),
        });

        return C21 {
            channels,
            acts: vec![
                Act21::Bulk { receiver: other, channel, count: 3 },
                Act21::Bulk { receiver, channel, count },
                Act21::Poll { receiver, channel, limit: limit(src) },
                Act21::Reopen,
                Act21::Poll { receiver, channel, limit: limit(src) },
                Act21::Bulk { receiver, channel, count: 1 + src.below(3) as u32 },
                Act21::Near { receiver, channel, delta: src.below(4) as i8 - 2 },
            ],
        };
    }

    let acts = src.vec(1, 20, |src| {
        let receiver = pool_key_or_twin(src, 3);
        let channel = src.below(n) as u8;

        match src.weighted(&[10, 6, 3, 1, 1, 3]) {
            5 => Act21::Again { times: 1 + src.below(2) as u8, to: if src.chance(1, 3) { Some((receiver, channel)) } else { None } },
            0 => Act21::Send { sender: SenderSpec::gen(src), receiver, channel, message: MessageSpec::gen(src, 200) },
            1 => Act21::Poll { receiver, channel, limit: match src.below(4) { 0 => None, 1 => Some(num(src)), _ => Some(src.below(4)) } },
            2 => Act21::Near { receiver, channel, delta: src.below(4) as i8 - 2 },
            3 => Act21::Bulk { receiver, channel, count: 2 + src.below(30) as u32 },
            _ => Act21::Reopen,
        }
    });

    C21 { channels, acts }
}

fn c21_run(case: &C21, cx: &mut Cx) -> Verdict {
    let dir = cx.fresh_dir();
    let mut inbox = open_inbox(cx, &dir);
    let mut model = BTreeMap::<Queue, Vec<MessageInfo>>::new();
    let name = |c: u8| case.channels[c as usize % case.channels.len()].clone();
    let (mut polled, mut kept, mut queues) = (0, 0, 0);
    let mut last = None;

    let judge_poll = |cx: &Cx, inbox: &StoredQueueMessagesInbox, model: &mut BTreeMap<Queue, Vec<MessageInfo>>, queue: &Queue, limit: Option<u64>| -> Result<(usize, usize), Fail> {
        let stored = model.entry(queue.clone()).or_default();
        let n = limit.unwrap_or(u64::MAX).min(stored.len() as u64) as usize;

        let (given, remaining) = cx.block_on(poll(inbox, queue, limit))
            .map_err(|e| Fail(format!("poll of channel {:?} with limit {limit:?} fails: {e}", queue.1)))?;

        let given = given.into_iter().map(timeless).collect::<Vec<_>>();

        ensure!(given[..] == stored[..n], "poll with limit {limit:?} of {} messages of {queue:?} gives {} instead of {}", stored.len(), short(&given), short(&&stored[..n]));
        ensure!(remaining == (stored.len() - n) as u64, "poll with limit {limit:?} of {} messages tells {remaining} remaining", stored.len());

        stored.drain(..n);

        Ok((n, stored.len()))
    };

    for act in &case.acts {
        cx.exec();

        match act {
            Act21::Reopen => inbox = open_inbox(cx, &dir),

            Act21::Send { sender, receiver, channel, message } => {
                let (sender, message, channel) = (sender.build(), message.build(), name(*channel));

                cx.block_on(inbox.add_message(sender.clone(), public(*receiver), channel.clone(), message.clone()))
                    .map_err(|e| Fail(format!("send to channel {channel:?} fails: {e}")))?;

                let info = MessageInfo { sender, channel: channel.clone(), message, received_at: 0 };

                last = Some((*receiver, info.clone()));
                model.entry((*receiver, channel)).or_default().push(info);
            }

            Act21::Again { times, to } => if let Some((receiver, info)) = &last {
                let (receiver, channel) = match to {
                    Some((receiver, channel)) => (*receiver, name(*channel)),
                    None => (*receiver, info.channel.clone()),
                };

                for _ in 0..*times {
                    cx.block_on(inbox.add_message(info.sender.clone(), public(receiver), channel.clone(), info.message.clone()))
                        .map_err(|e| Fail(format!("repeated send to channel {channel:?} fails: {e}")))?;

                    model.entry((receiver, channel.clone())).or_default().push(MessageInfo { channel: channel.clone(), ..info.clone() });
                    cx.label("same message again");
                }
            }

            Act21::Bulk { receiver, channel, count } => {
                let queue = (*receiver, name(*channel));

                for id in 0..*count as u64 {
                    cx.block_on(send(&inbox, &queue, id)).map_err(|e| Fail(format!("send to channel {:?} fails: {e}", queue.1)))?;

                    model.entry(queue.clone()).or_default().push(MessageInfo { sender: sender(id), channel: queue.1.clone(), message: message(id), received_at: 0 });
                }
            }

            Act21::Poll { receiver, channel, limit } => {
                let (n, rest) = judge_poll(cx, &inbox, &mut model, &(*receiver, name(*channel)), *limit)?;
                polled += n;
                kept += rest;
                cx.label_if(n > 0 && rest > 0, "partial poll");
                cx.label_if(*limit == Some(0), "zero limit");
            }

            Act21::Near { receiver, channel, delta } => {
                let queue = (*receiver, name(*channel));
                let len = model.get(&queue).map(Vec::len).unwrap_or(0) as u64;
                let (n, rest) = judge_poll(cx, &inbox, &mut model, &queue, Some(len.saturating_add_signed(*delta as i64)))?;
                polled += n;
                kept += rest;
                cx.label_if(n > 0 && rest == 0 && *delta == 0, "exact limit");
                cx.label_if(n > 0 && *delta > 0, "larger limit");
            }
        }

        queues = queues.max(model.values().filter(|q| !q.is_empty()).count());
    }

    // Everything left, everywhere, after a restart
    let inbox = open_inbox(cx, &dir);

    for receiver in [0, 1, 2, TWIN] {
        for channel in &case.channels {
            let queue = (receiver, channel.clone());
            judge_poll(cx, &inbox, &mut model, &queue, None)?;
            judge_poll(cx, &inbox, &mut model, &queue, None)?;
        }
    }

    cx.remove_dir(&dir);

    if polled > 0 && kept > 0 && queues > 1 {
        cx.nontrivial();
    }

    Ok(())
}

pub fn c21() -> Check {
    Def {
        id: "C21",
        level: "exploration",
        rule: "history with several queues in use at once, and polls which took some messages and left some",
        assumptions: &["time of arrival isn't compared"],
        quick: 6_000,
        thorough: 150_000,
        shards: 8,
        gen: c21_gen,
        run: c21_run,
    }.build()
}

// ----------------------------------------------------------------------- C22

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Name {
    Text(String),
    /// Repeated text, for long ones.
    Long(String, u32),
    /// Path to the folder of another queue, from the queue's place, up by some levels.
    To { up: u8, receiver: KeyId, rest: String },
    /// Absolute path of something in the scratch directory.
    Absolute(String),
    /// Name of a folder or file found in the inbox so far.
    Found { nth: u8, deep: bool, suffix: String },
    /// Look-alike of another name of the case.
    Like { of: u8, how: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act22 {
    Send { receiver: KeyId, name: u8 },
    Poll { receiver: KeyId, name: u8, limit: Option<u64> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C22 {
    names: Vec<Name>,
    acts: Vec<Act22>,
}

const HOSTILE: [&str; 44] = [
    "", ".", "..", "/", "//", "./", "../", "a/b", "a/../b", "main/..", "main/../other", "../main", "../../secret", "../../../secret", "index", "index.new",
    "index/", "./index", "main/index", "main/sub", "a\\b", "..\\main", "C:\\x", "con", "nul.txt", "~", "$HOME", "%2e%2e%2f", "a\0b", "\0", "main\0", "a\nb", " ", "main ", " main", "main.", ".main",
    "*", "-rf", "#", "\u{feff}main", "\u{202e}niam", "..%00", "main//",
];

fn c22_name(src: &mut Src) -> Name {
    match src.weighted(&[6, 3, 3, 3, 2, 3, 3]) {
        0 => Name::Text(src.pick(&HOSTILE).to_string()),
        1 => Name::Text(text(src, 30)),
        2 => {
            let unit = src.pick(&["a", "../", "я", "a/", "%", ".", "\0", "Aa"]).to_string();
            let edge = *src.pick(&[128, 129, 250, 255, 256, 300, 1000, 4095, 4096, 5000, 20000]);
            let n = edge / unit.len() as u64 + src.below(3);

            Name::Long(unit, n as u32)
        }
        3 => Name::To { up: src.below(5) as u8, receiver: src.below(2) as KeyId, rest: src.pick(&["main", "", "main/index", "index", "new"]).to_string() },
        4 => Name::Absolute(src.pick(&["canary", "inbox", "", "a/b/canary", "new", "index"]).to_string()),
        5 => Name::Found { nth: src.below(12) as u8, deep: src.chance(2, 3), suffix: src.pick(&["", "", "", "/index", ".new", "/", "/.."]).to_string() },
        _ => Name::Like { of: src.below(4) as u8, how: src.below(13) as u8 },
    }
}

fn c22_gen(src: &mut Src) -> C22 {
    let names = src.vec(1, 5, c22_name);
    // "main" is always among the names
    let n = names.len() as u64 + 1;

    let acts = src.vec(2, 16, |src| {
        let receiver = src.below(2) as KeyId;
        let name = src.below(n) as u8;

        if src.chance(3, 5) {
            Act22::Send { receiver, name }
        } else {
            Act22::Poll { receiver, name, limit: if src.bool() { None } else { Some(src.below(3)) } }
        }
    });

    C22 { names, acts }
}

/// Everything beneath the directory, except of one sub-directory.
fn snapshot(dir: &Path, except: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
    for entry in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let path = entry.path();

        if path == except {
            continue;
        }

        if path.is_dir() {
            out.insert(path.display().to_string(), b"(dir)".to_vec());
            snapshot(&path, except, out);
        } else {
            out.insert(path.display().to_string(), std::fs::read(&path).unwrap_or_default());
        }
    }
}

fn found(dir: &Path, depth: u8, out: &mut Vec<String>) {
    let mut entries = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect::<Vec<_>>();
    entries.sort();

    for path in entries {
        if path.is_dir() && depth > 0 {
            found(&path, depth - 1, out);
        }
        out.push(path.file_name().unwrap_or_default().to_string_lossy().into_owned());
    }
}

fn like(text: &str, how: u8) -> String {
    use sha2::Digest;

    match how {
        0 => text.to_uppercase(),
        1 => format!("{text} "),
        2 => format!("{text}."),
        3 => format!("{text}/"),
        4 => format!("./{text}"),
        5 => format!("{text}\0"),
        6 => format!("x/../{text}"),
        7 => crate::refimpl::b64(text.as_bytes()),
        8 => format!("#{}", crate::refimpl::b64(&sha2::Sha256::digest(text))),
        9 => hex(text.as_bytes()),
        10 => text.chars().flat_map(|c| c.to_string().bytes().map(|b| format!("%{b:02X}")).collect::<Vec<_>>()).collect(),
        11 => text.chars().filter(|c| c.is_ascii_alphanumeric()).collect(),
        _ => text.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect(),
    }
}

fn c22_run(case: &C22, cx: &mut Cx) -> Verdict {
    let top = cx.fresh_dir();
    let base = top.join("a").join("b");
    std::fs::create_dir_all(&base).unwrap_or_else(|e| infra(e.to_string()));

    // Things around the inbox that look like its parts
    for dir in [&top, &top.join("a"), &base] {
        for (name, content) in [("canary", &b"canary"[..]), ("index", &[0, 0, 0, 0, 0, 0, 0, 7]), ("7", b"{}"), ("secret", b"")] {
            std::fs::write(dir.join(name), content).unwrap_or_else(|e| infra(e.to_string()));
        }
    }

    let inbox_dir = base.join("inbox");
    let inbox = open_inbox(cx, &base);
    let _ = cx.ctl.take_denied();
    let _ = shim::take_stray();

    let mut around = BTreeMap::new();
    snapshot(&top, &inbox_dir, &mut around);

    // Something to be disturbed
    let mut model = BTreeMap::<Queue, Vec<u64>>::new();
    let mut next = 0;

    for receiver in 0..2 {
        let queue = (receiver, String::from("main"));
        cx.block_on(send(&inbox, &queue, next)).map_err(|e| Fail(format!("send fails: {e}")))?;
        model.entry(queue).or_default().push(next);
        next += 1;
    }

    let resolve = |name: &Name, names: &[String]| -> String {
        match name {
            Name::Text(text) => text.clone(),
            Name::Long(text, n) => text.repeat(*n as usize),
            Name::To { up, receiver, rest } => format!("{}{}/{rest}", "../".repeat(*up as usize), crate::refimpl::public_b64(*receiver)),
            Name::Absolute(rest) => top.join(rest).display().to_string(),

            Name::Found { nth, deep, suffix } => {
                let mut all = vec![];
                found(&inbox_dir, if *deep { 3 } else { 1 }, &mut all);
                let name = if all.is_empty() { String::new() } else { all[*nth as usize % all.len()].clone() };
                format!("{name}{suffix}")
            }

            Name::Like { of, how } => like(names.get(*of as usize).map(String::as_str).unwrap_or("main"), *how),
        }
    };

    let mut names = vec![String::from("main")];

    for name in &case.names {
        let name = resolve(name, &names);
        names.push(name);
    }

    // Names found in the inbox depend on what's there when they're first used
    let mut fresh = case.names.iter().map(|name| matches!(name, Name::Found { .. })).collect::<Vec<_>>();
    fresh.insert(0, false);

    let (mut odd, mut polled) = (0, 0);

    for act in &case.acts {
        cx.exec();

        let (Act22::Send { name, .. } | Act22::Poll { name, .. }) = act;
        let nth = *name as usize % names.len();

        if std::mem::take(&mut fresh[nth]) {
            names[nth] = resolve(&case.names[nth - 1], &names);
        }

        match act {
            Act22::Send { receiver, name } => {
                let queue = (*receiver, names[*name as usize % names.len()].clone());

                cx.block_on(send(&inbox, &queue, next)).map_err(|e| Fail(format!("send to channel {} fails: {e}", short(&queue.1))))?;

                if !queue.1.bytes().all(|b| b.is_ascii_alphanumeric()) { odd += 1 }
                model.entry(queue).or_default().push(next);
                next += 1;
            }

            Act22::Poll { receiver, name, limit } => {
                let queue = (*receiver, names[*name as usize % names.len()].clone());
                polled += judge_simple(cx, &inbox, &mut model, &queue, *limit)?;
            }
        }
    }

    // Every queue under its own name
    let inbox = open_inbox(cx, &base);

    for receiver in 0..2 {
        for name in &names {
            judge_simple(cx, &inbox, &mut model, &(receiver, name.clone()), None)?;
        }
    }

    let mut after = BTreeMap::new();
    snapshot(&top, &inbox_dir, &mut after);

    ensure!(after == around, "files around the inbox changed: {}", after.keys().chain(around.keys()).filter(|k| after.get(*k) != around.get(*k)).take(3).cloned().collect::<Vec<_>>().join(", "));

    let denied = cx.ctl.take_denied();
    ensure!(denied.is_empty(), "the inbox tried to change {}", denied[0]);

    cx.remove_dir(&top);

    if odd > 0 {
        cx.nontrivial();
    }

    cx.label_if(polled > 0, "polled midway");
    cx.label_if(names.iter().any(|n| n.len() > 255), "longer than a file name");
    cx.label_if(names.iter().any(|n| n.contains('/')), "with separators");
    cx.label_if(names.iter().any(|n| n.contains('\0')), "with zero bytes");

    Ok(())
}

fn judge_simple(cx: &Cx, inbox: &StoredQueueMessagesInbox, model: &mut BTreeMap<Queue, Vec<u64>>, queue: &Queue, limit: Option<u64>) -> Result<usize, Fail> {
    let stored = model.entry(queue.clone()).or_default();
    let n = limit.unwrap_or(u64::MAX).min(stored.len() as u64) as usize;

    let (given, remaining) = cx.block_on(poll(inbox, queue, limit))
        .map_err(|e| Fail(format!("poll of channel {} fails: {e}", short(&queue.1))))?;

    let given = ids(queue, &given)?;

    ensure!(given[..] == stored[..n], "poll of {} gives messages {given:?} instead of {:?}", short(queue), &stored[..n]);
    ensure!(remaining == (stored.len() - n) as u64, "poll of {} tells {remaining} remaining messages instead of {}", short(queue), stored.len() - n);

    stored.drain(..n);

    Ok(n)
}

pub fn c22() -> Check {
    Def {
        id: "C22",
        level: "exploration",
        rule: "history with a message sent to a channel whose name isn't plain letters and digits",
        assumptions: &["file calls that would change anything outside the scratch directory are refused and reported", "names up to 20000 bytes"],
        quick: 6_000,
        thorough: 150_000,
        shards: 8,
        gen: c22_gen,
        run: c22_run,
    }.build()
}

// ----------------------------------------------------------------------- C23

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Task23 {
    Send(u8),
    Poll(u8, Option<u64>),
    /// Another inbox gets opened over the folder.
    Open,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C23 {
    /// Messages in the queues before.
    before: Vec<u8>,
    threads: Vec<Vec<Task23>>,
    /// Separate instances over the same folder.
    instances: bool,
    order: Vec<u8>,
}

const QUEUES: [(KeyId, &str); 3] = [(0, "main"), (0, "other/one"), (1, "main")];

fn queue(n: u8) -> Queue {
    let (k, c) = QUEUES[n as usize % 3];
    (k, c.to_string())
}

fn c23_gen(src: &mut Src) -> C23 {
    let q = |src: &mut Src| src.weighted(&[8, 1, 1]) as u8;

    C23 {
        before: src.vec(0, 3, q),
        threads: src.vec(2, 4, |src| src.vec(1, 3, |src| {
            match src.weighted(&[11, 8, 1]) {
                0 => Task23::Send(q(src)),

                1 => {
                    let limit = if src.bool() { None } else { Some(src.below(3)) };
                    Task23::Poll(q(src), limit)
                }

                _ => Task23::Open,
            }
        })),
        instances: src.chance(1, 4),
        order: src.vec(0, 80, |src| src.below(4) as u8),
    }
}

#[derive(Clone, Debug)]
enum Step23 {
    Sent(u64),
    /// Messages given, number of the remaining ones, limit.
    Polled(Vec<u64>, u64, Option<u64>),
}

/// Is there an order of the threads' steps in which each poll gives what it gave?
fn serial(before: &[u64], threads: &[Vec<Step23>]) -> bool {
    fn go(at: &mut Vec<usize>, held: &[u64], threads: &[Vec<Step23>], seen: &mut BTreeSet<(Vec<usize>, Vec<u64>)>) -> bool {
        if !seen.insert((at.clone(), held.to_vec())) {
            return false;
        }

        let mut end = true;

        for t in 0..threads.len() {
            let Some(step) = threads[t].get(at[t]) else { continue };
            end = false;

            let held = match step {
                Step23::Sent(id) => {
                    let mut held = held.to_vec();
                    held.push(*id);
                    held
                }

                Step23::Polled(given, remaining, limit) => {
                    let n = limit.unwrap_or(u64::MAX).min(held.len() as u64) as usize;

                    if held[..n] != given[..] || *remaining != (held.len() - n) as u64 {
                        continue;
                    }

                    held[n..].to_vec()
                }
            };

            at[t] += 1;
            let found = go(at, &held, threads, seen);
            at[t] -= 1;

            if found { return true; }
        }

        end
    }

    go(&mut vec![0; threads.len()], before, threads, &mut BTreeSet::new())
}

fn c23_run(case: &C23, cx: &mut Cx) -> Verdict {
    let dir = cx.fresh_dir();
    let inbox = open_inbox(cx, &dir);
    // Message ids: thread * 100 + number; the earlier ones are of "thread" 9
    let mut sent = BTreeMap::<Queue, Vec<u64>>::new();

    for (i, q) in case.before.iter().enumerate() {
        let id = 900 + i as u64;
        cx.block_on(send(&inbox, &queue(*q), id)).map_err(|e| Fail(format!("send fails: {e}")))?;
        sent.entry(queue(*q)).or_default().push(id);
    }

    let sched = Sched::new(case.threads.len());

    let results = std::thread::scope(|scope| {
        let handles = case.threads.iter().enumerate().map(|(t, tasks)| {
            let slot = cx.slot(t);
            let sched = sched.clone();
            let inbox = if case.instances { open_inbox(cx, &dir) } else { inbox.clone() };
            let folder = dir.join("inbox");

            scope.spawn(move || run_gated(&slot, &sched, t, async {
                let mut out = vec![];

                for (i, task) in tasks.iter().enumerate() {
                    out.push(match task {
                        Task23::Send(q) => send(&inbox, &queue(*q), (t * 100 + i) as u64).await.map(|_| (vec![], 0)),
                        Task23::Poll(q, limit) => poll(&inbox, &queue(*q), *limit).await,
                        Task23::Open => StoredQueueMessagesInbox::new(folder.clone()).await.map(|_| (vec![], 0)).map_err(|e| e.to_string()),
                    });
                }

                out
            }))
        }).collect::<Vec<_>>();

        let mut n = 0;
        sched.drive(|waiting| {
            let choice = case.order.get(n).copied().unwrap_or(0) as usize % waiting.len();
            n += 1;
            choice
        });

        handles.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });

    cx.exec();

    let mut taken = BTreeMap::<Queue, Vec<(usize, Vec<u64>)>>::new();
    let mut steps = BTreeMap::<Queue, Vec<Vec<Step23>>>::new();

    for (t, (tasks, result)) in case.threads.iter().zip(results).enumerate() {
        let result = match result {
            Ok(result) => result?,
            Err(_) => infra("thread"),
        };

        for (i, (task, result)) in tasks.iter().zip(result).enumerate() {
            match (task, result) {
                (task, Err(err)) => fail!("{task:?} fails beside others: {err}"),
                (Task23::Open, Ok(_)) => cx.label("opened beside others"),

                (Task23::Send(q), Ok(_)) => {
                    let id = (t * 100 + i) as u64;
                    sent.entry(queue(*q)).or_default().push(id);
                    steps.entry(queue(*q)).or_insert_with(|| vec![vec![]; case.threads.len()])[t].push(Step23::Sent(id));
                }

                (Task23::Poll(q, limit), Ok((list, remaining))) => {
                    let list = ids(&queue(*q), &list)?;
                    steps.entry(queue(*q)).or_insert_with(|| vec![vec![]; case.threads.len()])[t].push(Step23::Polled(list.clone(), remaining, *limit));
                    ensure!(list.len() as u64 <= limit.unwrap_or(u64::MAX), "poll with limit {limit:?} gives {} messages", list.len());
                    taken.entry(queue(*q)).or_default().push((t, list));
                }
            }
        }
    }

    for (queue, steps) in &steps {
        let before = case.before.iter().enumerate().filter(|(_, q)| &self::queue(**q) == queue).map(|(i, _)| 900 + i as u64).collect::<Vec<_>>();
        ensure!(serial(&before, steps), "{queue:?} held {before:?}, and no order of the threads' operations explains {steps:?}");
    }

    // What's left, after a restart
    let last = open_inbox(cx, &dir);

    for n in 0..3 {
        let queue = queue(n);
        let (list, remaining) = cx.block_on(poll(&last, &queue, None)).map_err(|e| Fail(format!("poll in the end fails: {e}")))?;
        let left = ids(&queue, &list)?;
        ensure!(remaining == 0, "{remaining} messages remain after all were polled");

        let sent = sent.get(&queue).cloned().unwrap_or_default();
        let taken = taken.get(&queue).cloned().unwrap_or_default();

        let mut all = taken.iter().flat_map(|t| &t.1).chain(&left).copied().collect::<Vec<_>>();
        let delivered = all.clone();
        all.sort();
        let mut expected = sent.clone();
        expected.sort();

        ensure!(all == expected, "messages {expected:?} were sent to {queue:?}, and {all:?} were delivered");
        let _ = delivered;

        // Order of each sender's messages: within a poll, and over polls one after another
        let mut pollers = BTreeMap::<usize, Vec<u64>>::new();

        for (t, list) in &taken {
            pollers.entry(*t).or_default().extend(list);
        }

        let mut lists = pollers.into_values().map(|mut list| { list.extend(&left); list }).collect::<Vec<_>>();
        lists.push(left.clone());

        for list in lists {
            for sender in [0, 1, 2, 3, 9] {
                let own = list.iter().filter(|id| **id / 100 == sender).collect::<Vec<_>>();
                ensure!(own.windows(2).all(|w| w[0] < w[1]), "messages of one sender are delivered in the order {own:?}");
            }

            // Messages which were there before come first
            let new = list.iter().position(|id| *id < 900).unwrap_or(list.len());
            ensure!(list[new..].iter().all(|id| *id < 900), "messages sent before are delivered after the later ones: {list:?}");
        }
    }

    cx.remove_dir(&dir);

    let users = |q: u8| case.threads.iter().filter(|t| t.iter().any(|t| matches!(t, Task23::Send(n) | Task23::Poll(n, _) if *n == q))).count();
    let polls = case.threads.iter().flatten().filter(|t| matches!(t, Task23::Poll(..))).count();
    let sends = case.threads.iter().flatten().filter(|t| matches!(t, Task23::Send(_))).count();

    if (0..3).any(|q| users(q) > 1) {
        cx.nontrivial();
    }

    cx.label_if((0..3).filter(|q| users(*q) > 0).count() > 1, "several queues");
    cx.label_if(polls > 1, "several polls");
    cx.label_if(polls > 0 && sends > 0, "sends and polls");
    cx.label_if(case.instances, "several instances");

    Ok(())
}

pub fn c23() -> Check {
    Def {
        id: "C23",
        level: "exploration",
        rule: "schedule in which at least two threads use the same queue",
        assumptions: &["schedules are generated, not enumerated; threads step at file-system calls", "all instances live in one process"],
        quick: 4_000,
        thorough: 100_000,
        shards: 8,
        gen: c23_gen,
        run: c23_run,
    }.build()
}

// ----------------------------------------------------------------------- C24

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Trouble24 {
    None,
    Fail { at: u64, errno: u8 },
    Crash { at: u64, torn: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Task24 {
    Send(u8),
    Poll(u8, Option<u64>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C24 {
    before: Vec<(Task24, Trouble24)>,
    /// Tried with a fault at every step.
    task: Task24,
    errno: u8,
    after: Vec<Task24>,
}

fn c24_gen(src: &mut Src) -> C24 {
    let task = |src: &mut Src| {
        let q = src.weighted(&[6, 1, 1]) as u8;

        if src.chance(2, 5) {
            let limit = if src.bool() { None } else { Some(src.below(4)) };
            Task24::Poll(q, limit)
        } else {
            Task24::Send(q)
        }
    };

    C24 {
        before: src.vec(0, 7, |src| {
            let task = task(src);

            let trouble = match src.weighted(&[8, 1, 1]) {
                0 => Trouble24::None,
                1 => Trouble24::Fail { at: src.below(12), errno: src.below(4) as u8 },
                _ => Trouble24::Crash { at: src.below(12), torn: src.bool() },
            };

            (task, trouble)
        }),
        task: task(src),
        errno: src.below(4) as u8,
        after: src.vec(0, 4, task),
    }
}

/// Queue in which it's not known of some messages whether they're there.
#[derive(Clone, Default, Debug)]
struct Unsure(Vec<(u64, bool)>);

impl Unsure {
    /// The poll gave these messages and this number of the remaining.
    fn polled(&mut self, limit: Option<u64>, given: &[u64], remaining: u64) -> Verdict {
        let limit = limit.unwrap_or(u64::MAX);
        let mut at = 0;

        ensure!(given.len() as u64 <= limit, "poll with limit {limit} gives {} messages", given.len());

        for id in given {
            match self.0[at..].iter().position(|(other, _)| other == id) {
                Some(skipped) => {
                    ensure!(self.0[at..at + skipped].iter().all(|m| !m.1), "poll gives {given:?} of the messages {:?} (true: surely there)", self.0);
                    at += skipped + 1;
                }

                None => fail!("poll gives {given:?} of the messages {:?} (true: surely there)", self.0),
            }
        }

        if (given.len() as u64) < limit {
            // No more of them
            ensure!(self.0[at..].iter().all(|m| !m.1), "poll gives {given:?} only of the messages {:?} (true: surely there)", self.0);
            ensure!(remaining == 0, "{remaining} remain though the limit isn't reached");
            self.0.clear();
        } else {
            self.0.drain(..at);
            let sure = self.0.iter().filter(|m| m.1).count() as u64;
            ensure!(sure <= remaining && remaining <= self.0.len() as u64, "poll tells {remaining} remaining messages of {:?}", self.0);
        }

        Ok(())
    }

    /// The poll was interrupted: what it selected may be gone.
    fn interrupted(&mut self, limit: Option<u64>) {
        let mut left = limit.unwrap_or(u64::MAX);

        for m in &mut self.0 {
            if left == 0 {
                break;
            }
            if m.1 {
                m.1 = false;
                left -= 1;
            }
        }
    }
}

type Model24 = BTreeMap<Queue, Unsure>;

/// Perform the task under the fault and tell what it did to the queues.
fn perform24(cx: &mut Cx, inbox: &StoredQueueMessagesInbox, model: &mut Model24, task: &Task24, id: u64, fault: Fault) -> Result<crate::shim::Report, Fail> {
    let crash = matches!(fault, Fault::Crash { .. });

    let report = match task {
        Task24::Send(q) => {
            let queue = queue(*q);
            cx.ctl.arm(fault);
            let result = cx.block_on(send(inbox, &queue, id));
            let report = cx.ctl.disarm();
            let fired = report.fired.is_some();

            match result {
                Ok(()) if fired && crash => model.entry(queue).or_default().0.push((id, false)),
                Ok(()) => model.entry(queue).or_default().0.push((id, true)),
                Err(_) if fired => model.entry(queue).or_default().0.push((id, false)),
                Err(err) => fail!("send fails: {err}"),
            }

            report
        }

        Task24::Poll(q, limit) => {
            let queue = queue(*q);
            cx.ctl.arm(fault);
            let result = cx.block_on(poll(inbox, &queue, *limit));
            let report = cx.ctl.disarm();
            let fired = report.fired.is_some();
            let unsure = model.entry(queue.clone()).or_default();

            match result {
                // Interrupted before it could answer
                _ if fired && crash => unsure.interrupted(*limit),

                Ok((list, remaining)) => {
                    let given = ids(&queue, &list)?;
                    unsure.polled(*limit, &given, remaining)?;
                }

                // A failed poll loses nothing
                Err(_) if fired => (),
                Err(err) => fail!("poll fails: {err}"),
            }

            report
        }
    };

    Ok(report)
}

fn judge24(cx: &mut Cx, base: &Path, model: &Model24, case: &C24, fault: Fault, restart: bool) -> Verdict {
    let dir = cx.fresh_dir();
    copy_tree(base, &dir).unwrap_or_else(|e| infra(format!("copy: {e}")));

    let mut inbox = open_inbox(cx, &dir);
    let mut model = model.clone();

    let report = perform24(cx, &inbox, &mut model, &case.task, 500, fault)?;
    let step = report.fired.and_then(|_| report.log.last().cloned());
    cx.exec();

    let result = (|| {
        if restart {
            inbox = open_inbox(cx, &dir);
        }

        for (i, task) in case.after.iter().enumerate() {
            perform24(cx, &inbox, &mut model, task, 600 + i as u64, Fault::None)?;
        }

        let inbox = open_inbox(cx, &dir);

        for q in 0..3 {
            // One by one, then the rest
            for limit in [Some(1), Some(1), None, None] {
                perform24(cx, &inbox, &mut model, &Task24::Poll(q, limit), 0, Fault::None)?;
            }
        }

        Ok(())
    })();

    cx.remove_dir(&dir);

    result.map_err(|Fail(text)| Fail(format!("after {:?} with {fault:?} (at {step:?}){}: {text}", case.task, if restart { " and a restart" } else { "" })))
}

fn c24_run(case: &C24, cx: &mut Cx) -> Verdict {
    let dir = cx.fresh_dir();
    let mut inbox = open_inbox(cx, &dir);
    let mut model = Model24::new();

    for (i, (task, trouble)) in case.before.iter().enumerate() {
        let fault = match trouble {
            Trouble24::None => Fault::None,
            Trouble24::Fail { at, errno } => Fault::Fail { at: *at, errno: ERRNOS[*errno as usize % 4] },
            Trouble24::Crash { at, torn } => Fault::Crash { at: *at, torn: *torn },
        };

        let report = perform24(cx, &inbox, &mut model, task, i as u64, fault)?;

        if report.fired.is_some() {
            cx.label("trouble before");
            inbox = open_inbox(cx, &dir);
        }
    }

    // Count the steps
    let dry = cx.fresh_dir();
    copy_tree(&dir, &dry).unwrap_or_else(|e| infra(format!("copy: {e}")));
    let copy = open_inbox(cx, &dry);
    let report = perform24(cx, &copy, &mut model.clone(), &case.task, 500, Fault::None)?;
    cx.remove_dir(&dry);

    let q = match case.task { Task24::Send(q) | Task24::Poll(q, _) => queue(q) };

    if report.log.iter().any(|s| s.0.mutating()) && model.get(&q).is_some_and(|m| !m.0.is_empty()) {
        cx.nontrivial();
    }

    cx.label(match case.task { Task24::Send(_) => "faults of a send", Task24::Poll(..) => "faults of a poll" });

    for (at, (kind, _)) in report.log.iter().enumerate() {
        let at = at as u64;

        judge24(cx, &dir, &model, case, Fault::Crash { at, torn: false }, true)?;

        if *kind == Kind::Write {
            judge24(cx, &dir, &model, case, Fault::Crash { at, torn: true }, true)?;
        }

        judge24(cx, &dir, &model, case, Fault::Fail { at, errno: ERRNOS[case.errno as usize % 4] }, false)?;
    }

    cx.remove_dir(&dir);

    Ok(())
}

pub fn c24() -> Check {
    Def {
        id: "C24",
        level: "fault_enumeration",
        rule: "a send to or a poll of a queue with messages, under every single fault",
        assumptions: &[
            "completed file calls persist in their order; a torn write leaves the first half",
            "a failed send may or may not have stored its message",
        ],
        quick: 2_000,
        thorough: 50_000,
        shards: 8,
        gen: c24_gen,
        run: c24_run,
    }.build()
}
