//! C39: what the storage folders keep.

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::{Path, PathBuf};

use serde::{Deserialize, Serialize};

use hyperborealib::prelude::*;

use crate::dict;
use crate::engine::*;
use crate::gens::*;
use crate::net::*;
use crate::{ensure, fail};

const KEYS: u64 = 4;
const CHANNELS: [&str; 4] = ["main", "", "other channel", "../main"];

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Act39 {
    Local { key: KeyId, kind: u8 },
    /// Certificate of this many acts ago.
    Remote { key: KeyId, kind: u8, server: KeyId, back: u8 },
    Server { key: KeyId },
    Disconnect { key: KeyId },
    Send { receiver: KeyId, channel: u8, size: u32 },
    /// Many messages at once.
    Bulk { receiver: KeyId, channel: u8, count: u32 },
    Poll { receiver: KeyId, channel: u8, limit: Option<u64> },
    Look { key: KeyId },
    Reopen,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C39 {
    acts: Vec<Act39>,
}

fn c39_gen(src: &mut Src) -> C39 {
    // At times a queue of some hundreds, read at once or in parts
    let hinted = dict::count(src, 40, 2000);

    if hinted.is_some() || src.chance(1, 100) {
        let count = hinted.unwrap_or_else(|| 20 + src.below(400)) as u32;
        let (receiver, channel) = (src.below(3) as KeyId, src.below(4) as u8);

        return C39 {
            acts: vec![
                Act39::Bulk { receiver, channel, count },
                Act39::Poll { receiver, channel, limit: if src.bool() { None } else { Some(src.below(count as u64 + 2)) } },
                Act39::Bulk { receiver, channel, count: 1 + src.below(4) as u32 },
                Act39::Poll { receiver, channel, limit: None },
            ],
        };
    }

    C39 {
        acts: src.vec(6, 30, |src| {
            let key = pool_key_or_twin(src, KEYS);

            match src.weighted(&[4, 5, 3, 4, 8, 7, 2, 1]) {
                0 => Act39::Local { key, kind: src.below(4) as u8 },
                1 => Act39::Remote { key, kind: src.below(4) as u8, server: src.below(KEYS) as KeyId, back: if src.bool() { 0 } else { src.below(4) as u8 } },
                2 => Act39::Server { key },
                3 => Act39::Disconnect { key },
                4 => Act39::Send { receiver: key % 3, channel: src.below(4) as u8, size: if src.chance(1, 10) { src.below(20_000) as u32 } else { src.below(50) as u32 } },
                5 => Act39::Poll { receiver: key % 3, channel: src.below(4) as u8, limit: if src.bool() { None } else { Some(src.below(3)) } },
                6 => Act39::Look { key },
                _ => Act39::Reopen,
            }
        }),
    }
}

/// Contents of all the files beneath the folder.
fn files(folder: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut folders = vec![folder.to_path_buf()];

    while let Some(folder) = folders.pop() {
        let entries = std::fs::read_dir(&folder).unwrap_or_else(|err| infra(format!("{folder:?}: {err}")));

        for path in entries.flatten().map(|entry| entry.path()) {
            if path.is_dir() {
                folders.push(path);
            } else {
                let bytes = std::fs::read(&path).unwrap_or_else(|err| infra(format!("{path:?}: {err}")));
                out.insert(path, bytes);
            }
        }
    }

    out
}

/// All the markers in the text.
fn markers(bytes: &[u8]) -> impl Iterator<Item = &str> {
    let (start, end) = (b"marker", b"held");

    bytes.windows(start.len()).enumerate()
        .filter(move |(_, w)| w == start)
        .filter_map(move |(at, _)| {
            let text = &bytes[at..bytes.len().min(at + 40)];
            let len = text.windows(end.len()).position(|w| w == end)? + end.len();

            std::str::from_utf8(&text[..len]).ok()
        })
}

fn c39_run(case: &C39, cx: &mut Cx) -> Verdict {
    const BASE: u64 = 1_700_000_000;

    let (table_dir, inbox_dir) = (cx.fresh_dir(), cx.fresh_dir());
    let mut router = open_router(cx, &table_dir);
    let mut inbox = open_inbox(cx, &inbox_dir);

    // What is held: the text each record or message can be known by
    let mut records = BTreeMap::<(u8, KeyId), (u64, String)>::new();
    let mut queues = BTreeMap::<(KeyId, u8), VecDeque<String>>::new();
    let mut gone = BTreeSet::<String>::new();
    let (mut replaced, mut delivered) = (false, false);

    for (n, act) in case.acts.iter().enumerate() {
        cx.exec();

        let marker = format!("marker{n:04}held");
        let now = BASE + n as u64 * 1000;

        let client = |key: KeyId, kind: u8, date: u64| ClientSpec {
            key,
            cert: CertSpec::genuine(key, 100, date),
            info: InfoSpec { kind, address: (kind > 0).then(|| format!("{marker}.test:1")) },
        };

        // A client which isn't reachable at an address is known by nothing of its own
        let known = |kind: u8| if kind > 0 { marker.clone() } else { String::new() };

        let done = match act {
            Act39::Local { key, kind } => {
                gone.extend(records.insert((0, *key), (now, known(*kind))).map(|(_, old)| old));
                cx.block_on(router.index_local_client(client(*key, *kind, now).build())).map(|_| ()).map_err(|e| e.to_string())
            }

            Act39::Remote { key, kind, server, back } => {
                let date = now.saturating_sub(*back as u64 * 1000) + n as u64;
                let outdated = records.get(&(1, *key)).is_some_and(|(old, _)| *old > date);

                if outdated {
                    gone.insert(marker.clone());
                    cx.label("outdated record");
                } else {
                    replaced |= records.contains_key(&(1, *key));
                    gone.extend(records.insert((1, *key), (date, marker.clone())).map(|(_, old)| old));
                }

                let server = ServerSpec { key: 100 + *server, address: format!("{marker}.test:2") };

                cx.block_on(router.index_remote_client(client(*key, *kind, date).build(), server.build())).map(|_| ()).map_err(|e| e.to_string())
            }

            Act39::Server { key } => {
                replaced |= records.contains_key(&(2, *key));
                gone.extend(records.insert((2, *key), (now, marker.clone())).map(|(_, old)| old));
                cx.block_on(router.index_server(ServerSpec { key: *key, address: format!("{marker}.test:3") }.build())).map(|_| ()).map_err(|e| e.to_string())
            }

            Act39::Disconnect { key } => {
                for table in 0..3 {
                    gone.extend(records.remove(&(table, *key)).map(|(_, old)| old));
                }

                cx.block_on(router.disconnect(&public(*key))).map_err(|e| e.to_string())
            }

            Act39::Send { receiver, channel, .. } | Act39::Bulk { receiver, channel, .. } => {
                let (count, size) = match act {
                    Act39::Send { size, .. } => (1, *size),
                    Act39::Bulk { count, .. } => (*count, 5),
                    _ => (0, 0),
                };

                let sender = Sender {
                    client: client(1, 0, BASE).build(),
                    server: ServerSpec { key: 100, address: String::from("home.test") }.build(),
                };

                cx.label_if(count > 64, "more than 64 messages");

                (0..count).try_for_each(|nth| {
                    let marker = format!("marker{n:04}nth{nth:05}held");

                    let message = Message {
                        content: format!("{marker}{}", "x".repeat(size as usize)),
                        sign: String::from("sign"),
                        encoding: EncSpec { encryption: 0, compression: 0 }.build(),
                    };

                    queues.entry((*receiver, *channel)).or_default().push_back(marker);

                    cx.block_on(inbox.add_message(sender.clone(), public(*receiver), CHANNELS[*channel as usize % 4].to_string(), message)).map_err(|e| e.to_string())
                })
            }

            Act39::Poll { receiver, channel, limit } => {
                let queue = queues.entry((*receiver, *channel)).or_default();
                let count = limit.unwrap_or(u64::MAX).min(queue.len() as u64) as usize;

                delivered |= count > 0;
                gone.extend(queue.drain(..count));

                cx.block_on(inbox.poll_messages(public(*receiver), CHANNELS[*channel as usize % 4].to_string(), *limit)).map(|_| ()).map_err(|e| e.to_string())
            }

            Act39::Look { key } => {
                let before = files(&table_dir);
                let key = public(*key);

                let result = cx.block_on(async {
                    let text = |e: &dyn std::fmt::Display| e.to_string();

                    router.local_clients().await.map_err(|e| text(&e))?;
                    router.remote_clients().await.map_err(|e| text(&e))?;
                    router.servers().await.map_err(|e| text(&e))?;
                    router.lookup_local_client(&key, None).await.map_err(|e| text(&e))?;
                    router.lookup_remote_client(&key, Some(ClientType::Thick)).await.map_err(|e| text(&e))?;
                    router.lookup_remote_client_hint(&key, None).await.map_err(|e| text(&e))?;
                    router.lookup_server(&key).await.map_err(|e| text(&e))?;

                    Ok::<(), String>(())
                });

                ensure!(files(&table_dir) == before, "lookups and listings change the routing table's files");
                cx.label("looked up");

                result
            }

            Act39::Reopen => {
                let before = (files(&table_dir), files(&inbox_dir));

                router = open_router(cx, &table_dir);
                inbox = open_inbox(cx, &inbox_dir);

                for (old, new) in [(before.0, files(&table_dir)), (before.1, files(&inbox_dir))] {
                    ensure!(old.iter().all(|(path, bytes)| new.get(path) == Some(bytes)), "opening the storage changes what's kept in it");
                }

                cx.label("reopened");

                Ok(())
            }
        };

        if let Err(err) = done {
            fail!("{} fails: {err}", short(act));
        }

        gone.remove("");

        let held = records.len() + queues.values().map(VecDeque::len).sum::<usize>();
        let kept = [files(&table_dir), files(&inbox_dir)];

        for (path, bytes) in kept.iter().flatten() {
            let name = path.file_name().map(|name| name.to_string_lossy().into_owned()).unwrap_or_default();

            for marker in markers(name.as_bytes()).chain(markers(bytes)) {
                ensure!(
                    !gone.contains(marker),
                    "after {} the file {name:?} still has {marker:?}, which was removed, replaced, refused or delivered", short(act)
                );
            }
        }

        // Whatever a queue, a record or a message needs; but nothing that piles up
        let count = kept[0].len() + kept[1].len();
        ensure!(count <= 3 * held + 4 * queues.len() + 12, "{count} files are kept for {held} records and messages in {} queues", queues.len());
    }

    cx.label_if(replaced, "record replaced");
    cx.label_if(delivered, "message delivered");
    cx.label_if(gone.len() > 3, "several gone");

    if gone.len() > 2 {
        cx.nontrivial();
    }

    cx.remove_dir(&table_dir);
    cx.remove_dir(&inbox_dir);

    Ok(())
}

pub fn c39() -> Check {
    Def {
        id: "C39",
        level: "exploration",
        rule: "history in which at least three texts are gone by replacement, removal, refusal or delivery; all the files are searched for them after each operation",
        assumptions: &[
            "no operation fails or is interrupted",
            "a text is recognised in a file if it's written as it is",
            "the number of files is bounded by a multiple of what is held",
        ],
        quick: 6_000,
        thorough: 200_000,
        shards: 8,
        gen: c39_gen,
        run: c39_run,
    }.build()
}
