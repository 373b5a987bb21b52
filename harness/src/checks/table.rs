//! C19, C20: the stored routing table.

use std::collections::BTreeMap;
use std::path::Path;

use serde::{Deserialize, Serialize};

use hyperborealib::prelude::*;

use crate::checks::server::{run_gated, ERRNOS};
use crate::dict;
use crate::engine::*;
use crate::gens::*;
use crate::net::*;
use crate::shim::{Fault, Kind, Sched};
use crate::{ensure, fail};

const KEYS: u64 = 5;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Local(ClientSpec),
    Remote(ClientSpec, ServerSpec),
    Server(ServerSpec),
    Disconnect(KeyId),
}

fn client(src: &mut Src) -> ClientSpec {
    let key = pool_key_or_twin(src, KEYS);

    let date = match src.weighted(&[5, 2, 1]) {
        0 => 1_700_000_000 + src.below(6),
        1 => 1_700_000_000 + src.below(1000),
        _ => num(src),
    };

    let cert = match src.below(3) {
        0 => CertSpec { token: TokenSpec { date, server: 100 }, sign: SignSpec::Raw(blob(src, 80)) },
        _ => CertSpec::genuine(key, 100 + src.below(3) as KeyId, date),
    };

    ClientSpec { key, cert, info: InfoSpec::gen(src) }
}

fn server(src: &mut Src) -> ServerSpec {
    ServerSpec {
        key: if src.chance(1, 3) { pool_key_or_twin(src, KEYS) } else { 100 + src.below(3) as KeyId },
        address: text(src, 60),
    }
}

impl Op {
    pub fn gen(src: &mut Src) -> Self {
        match src.weighted(&[4, 5, 3, 3]) {
            0 => Op::Local(client(src)),
            1 => Op::Remote(client(src), server(src)),
            2 => Op::Server(server(src)),
            _ => Op::Disconnect(if src.chance(1, 4) { 100 + src.below(3) as KeyId } else { pool_key_or_twin(src, KEYS) }),
        }
    }
}

/// Record of one of the three tables.
#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    Local(Client),
    Remote(Client, Server),
    Server(Server),
}

type Table = BTreeMap<(u8, String), Rec>;

/// One table's part of an operation: the key, and the record (none = removal).
fn parts(op: &Op) -> Vec<((u8, String), Option<Rec>)> {
    let b64 = crate::refimpl::public_b64;

    match op {
        Op::Local(c) => vec![((0, b64(c.key)), Some(Rec::Local(c.build())))],
        Op::Remote(c, s) => vec![((1, b64(c.key)), Some(Rec::Remote(c.build(), s.build())))],
        Op::Server(s) => vec![((2, b64(s.key)), Some(Rec::Server(s.build())))],
        Op::Disconnect(k) => (0..3).map(|t| ((t, b64(*k)), None)).collect(),
    }
}

fn apply_part(old: Option<&Rec>, new: &Option<Rec>) -> Option<Rec> {
    match (old, new) {
        (_, None) => None,

        (Some(Rec::Remote(old, s)), Some(Rec::Remote(new, _))) if old.certificate.token.auth_date > new.certificate.token.auth_date =>
            Some(Rec::Remote(old.clone(), s.clone())),

        (_, Some(new)) => Some(new.clone()),
    }
}

fn apply(table: &mut Table, op: &Op) {
    for (key, new) in parts(op) {
        match apply_part(table.get(&key), &new) {
            Some(rec) => { table.insert(key, rec); }
            None => { table.remove(&key); }
        }
    }
}

async fn perform(router: &GlobalTableRouter, op: &Op) -> Result<bool, String> {
    match op {
        Op::Local(c) => router.index_local_client(c.build()).await.map_err(|e| e.to_string()),
        Op::Remote(c, s) => router.index_remote_client(c.build(), s.build()).await.map_err(|e| e.to_string()),
        Op::Server(s) => router.index_server(s.build()).await.map_err(|e| e.to_string()),
        Op::Disconnect(k) => router.disconnect(&public(*k)).await.map(|_| true).map_err(|e| e.to_string()),
    }
}

async fn list(router: &GlobalTableRouter, tables: &[u8]) -> Result<Vec<((u8, String), Rec)>, String> {
    let mut all = vec![];

    for t in tables {
        match t {
            0 => all.extend(router.local_clients().await.map_err(|e| format!("list of clients: {e}"))?
                .into_iter().map(|c| ((0, c.public_key.to_base64()), Rec::Local(c)))),

            1 => all.extend(router.remote_clients().await.map_err(|e| format!("list of announced clients: {e}"))?
                .into_iter().map(|(c, s)| ((1, c.public_key.to_base64()), Rec::Remote(c, s)))),

            _ => all.extend(router.servers().await.map_err(|e| format!("list of servers: {e}"))?
                .into_iter().map(|s| ((2, s.public_key.to_base64()), Rec::Server(s)))),
        }
    }

    Ok(all)
}

fn as_table(list: Vec<((u8, String), Rec)>) -> Result<Table, Fail> {
    let n = list.len();
    let table = list.into_iter().collect::<Table>();
    ensure!(table.len() == n, "a record is listed twice");
    Ok(table)
}

fn diff(actual: &Table, expected: &Table) -> String {
    let mut out = vec![];

    for key in actual.keys().chain(expected.keys()) {
        if actual.get(key) != expected.get(key) {
            out.push(format!("table {} lists {} instead of {}", ["local", "remote", "servers"][key.0 as usize], short(&actual.get(key)), short(&expected.get(key))));
        }
    }

    out.dedup();
    out.join("; ")
}

// ----------------------------------------------------------------------- C19

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act {
    Op(Op),
    Reopen,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C19 {
    /// Table (3: all of them) and number of the records which are there before.
    crowd: (u8, u32),
    acts: Vec<Act>,
    /// Also: a router with nothing but the required methods
    plain: Vec<(ClientSpec, ServerSpec)>,
}

fn c19_gen(src: &mut Src) -> C19 {
    let crowd = match dict::count(src, 6, 3000) {
        Some(n) => n,
        None if src.chance(1, 200) => 10 + src.below(150),
        None => 0,
    };

    C19 {
        crowd: (src.below(4) as u8, crowd as u32),
        acts: src.vec(1, 16, |src| if src.chance(1, 8) { Act::Reopen } else { Act::Op(Op::gen(src)) }),
        plain: if src.chance(1, 4) { src.vec(0, 5, |src| (client(src), server(src))) } else { vec![] },
    }
}

/// Router with the required methods only.
struct Plain(std::sync::Mutex<Vec<Client>>, Vec<(Client, Server)>);

#[async_trait::async_trait]
impl Router for Plain {
    type Error = StorageError;

    async fn index_local_client(&self, client: Client) -> Result<bool, StorageError> {
        self.0.lock().unwrap().push(client);
        Ok(true)
    }

    async fn index_server(&self, _server: Server) -> Result<bool, StorageError> { Ok(true) }
    async fn disconnect(&self, _public_key: &PublicKey) -> Result<(), StorageError> { Ok(()) }
    async fn local_clients(&self) -> Result<Vec<Client>, StorageError> { Ok(self.0.lock().unwrap().clone()) }
    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, StorageError> { Ok(self.1.clone()) }
}

/// Every lookup agrees with the listed records.
fn judge_lookups<R: Router + Sync>(cx: &Cx, router: &R, locals: &[Client], remotes: &[(Client, Server)], servers: &[Server]) -> Verdict {
    let text = |e: &dyn std::fmt::Display| Fail(format!("lookup fails: {e}"));

    for key in (0..KEYS as KeyId - 1).chain([TWIN]).chain(100..103) {
        let key = public(key);

        for kind in [None, Some(0), Some(1), Some(2), Some(3)] {
            let filter = kind.map(client_type);
            let fits = |c: &Client| c.public_key == key && kind.is_none_or(|k| c.info.client_type == client_type(k));

            let found = cx.block_on(router.lookup_local_client(&key, filter)).map_err(|e| text(&e))?;
            let options = locals.iter().filter(|c| fits(c)).collect::<Vec<_>>();

            match &found {
                Some((c, available)) => ensure!(options.contains(&c) && *available, "local lookup of type {kind:?} finds {}, listed: {}", short(&found), short(&options)),
                None => ensure!(options.is_empty(), "local lookup of type {kind:?} finds nothing, listed: {}", short(&options)),
            }

            let found = cx.block_on(router.lookup_remote_client(&key, filter)).map_err(|e| text(&e))?;
            let options = remotes.iter().filter(|c| fits(&c.0)).collect::<Vec<_>>();

            match &found {
                Some((c, s, available)) => ensure!(options.iter().any(|o| &o.0 == c && &o.1 == s) && *available, "remote lookup of type {kind:?} finds {}, listed: {}", short(&found), short(&options)),
                None => ensure!(options.is_empty(), "remote lookup of type {kind:?} finds nothing, listed: {}", short(&options)),
            }
        }

        let found = cx.block_on(router.lookup_server(&key)).map_err(|e| text(&e))?;
        let options = servers.iter().filter(|s| s.public_key == key).collect::<Vec<_>>();

        match &found {
            Some((s, available)) => ensure!(options.contains(&s) && *available, "server lookup finds {}, listed: {}", short(&found), short(&options)),
            None => ensure!(options.is_empty(), "server lookup finds nothing, listed: {}", short(&options)),
        }
    }

    let hints = cx.block_on(router.lookup_remote_client_hint(&public(0), None)).map_err(|e| text(&e))?;
    ensure!(hints.len() == servers.len() && servers.iter().all(|s| hints.contains(s)), "hints {} aren't the known servers {}", short(&hints), short(&servers));

    Ok(())
}

fn c19_run(case: &C19, cx: &mut Cx) -> Verdict {
    let dir = cx.fresh_dir();
    let mut router = open_router(cx, &dir);
    let mut table = Table::new();
    let (mut replaced, mut removed) = (0, 0);

    for n in 0..case.crowd.1.min(5000) as KeyId {
        let key = 1000 + n;
        let client = ClientSpec { key, cert: CertSpec::genuine(1000, 100, 1_700_000_000 + n as u64), info: InfoSpec { kind: n as u8 % 4, address: None } };
        let server = ServerSpec { key, address: format!("crowd{n}.test") };

        let op = match if case.crowd.0 < 3 { case.crowd.0 } else { n as u8 % 3 } {
            0 => Op::Local(client),
            1 => Op::Remote(client, server),
            _ => Op::Server(server),
        };

        apply(&mut table, &op);

        if let Err(err) = cx.block_on(perform(&router, &op)) {
            fail!("{} fails: {err}", short(&op));
        }
    }

    cx.label_if(case.crowd.1 > 0, "many records");

    for act in &case.acts {
        let op = match act {
            Act::Op(op) => op,
            Act::Reopen => {
                drop(router);
                router = open_router(cx, &dir);
                cx.label("reopened");
                continue;
            }
        };

        let before = table.clone();
        apply(&mut table, op);

        for key in before.keys() {
            match table.get(key) {
                None => removed += 1,
                Some(new) if Some(new) != before.get(key) => replaced += 1,
                _ => (),
            }
        }

        let older = matches!(op, Op::Remote(..)) && table == before && {
            let (key, new) = parts(op).remove(0);
            table.get(&key) != new.as_ref()
        };

        match cx.block_on(perform(&router, op)) {
            Ok(indexed) => ensure!(indexed != older, "{} reports {indexed} though it's {}", short(op), if older { "outdated" } else { "fresh" }),
            Err(err) => fail!("{} fails: {err}", short(op)),
        }

        cx.label_if(older, "outdated announcement");
        cx.exec();

        let listed = cx.block_on(list(&router, &[0, 1, 2])).map_err(Fail)?;
        let actual = as_table(listed)?;
        ensure!(actual == table, "after {}: {}", short(op), diff(&actual, &table));
    }

    let (mut l, mut r, mut s) = (vec![], vec![], vec![]);

    for rec in table.values() {
        match rec.clone() {
            Rec::Local(c) => l.push(c),
            Rec::Remote(c, srv) => r.push((c, srv)),
            Rec::Server(srv) => s.push(srv),
        }
    }

    judge_lookups(cx, &router, &l, &r, &s)?;

    let again = open_router(cx, &dir);
    let listed = cx.block_on(list(&again, &[0, 1, 2])).map_err(Fail)?;
    let actual = as_table(listed)?;
    ensure!(actual == table, "after the restart: {}", diff(&actual, &table));
    judge_lookups(cx, &again, &l, &r, &s)?;

    cx.remove_dir(&dir);

    if replaced > 0 && removed > 0 {
        cx.nontrivial();
    }

    cx.label_if(replaced > 0, "record replaced");
    cx.label_if(removed > 0, "record removed");

    if !case.plain.is_empty() {
        cx.label("router of required methods");

        let records = case.plain.iter().map(|(c, s)| (c.build(), s.build())).collect::<Vec<_>>();
        let (first, rest) = records.split_at(records.len() / 2);
        let router = Plain(Default::default(), first.to_vec());

        for (c, s) in rest {
            let indexed = cx.block_on(router.index_remote_client(c.clone(), s.clone())).map_err(|e| Fail(e.to_string()))?;
            ensure!(indexed, "default indexing reports false");
        }

        let locals = rest.iter().map(|r| r.0.clone()).collect::<Vec<_>>();
        ensure!(*router.0.lock().unwrap() == locals, "default indexing of announced clients doesn't index them");

        let servers = first.iter().map(|r| r.1.clone()).collect::<Vec<_>>();
        let listed = cx.block_on(router.servers()).map_err(|e| Fail(e.to_string()))?;
        ensure!(servers.iter().all(|s| listed.contains(s)) && listed.iter().all(|s| servers.contains(s)), "default list of servers {} isn't the one of announced clients' servers {}", short(&listed), short(&servers));

        judge_lookups(cx, &router, &locals, first, &listed)?;
    }

    Ok(())
}

pub fn c19() -> Check {
    Def {
        id: "C19",
        level: "exploration",
        rule: "history in which a record was replaced and a record was removed",
        assumptions: &["an outdated announcement reports that it wasn't indexed"],
        quick: 8_000,
        thorough: 200_000,
        shards: 8,
        gen: c19_gen,
        run: c19_run,
    }.build()
}

// ----------------------------------------------------------------------- C20

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C20 {
    /// Faults at every step of the last operation.
    Faults { before: Vec<Op>, op: Op, errno: u8 },
    /// Operations (or listings) at once.
    Race { before: Vec<Op>, threads: Vec<Vec<Task>>, order: Vec<u8> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Task {
    Op(Op),
    List(u8),
    /// Another router gets opened over the folder.
    Open,
}

fn c20_gen(src: &mut Src) -> C20 {
    let before = src.vec(0, 6, Op::gen);

    if src.chance(2, 5) {
        return C20::Faults { before, op: Op::gen(src), errno: src.below(4) as u8 };
    }

    // Few keys so that operations meet
    let op = |src: &mut Src| {
        let mut op = Op::gen(src);

        match &mut op {
            Op::Local(c) | Op::Remote(c, _) => c.key %= 2,
            Op::Server(s) => s.key %= 2,
            Op::Disconnect(k) => *k %= 2,
        }

        if let Op::Local(c) | Op::Remote(c, _) = &mut op {
            if let SignSpec::By(key) = &mut c.cert.sign { *key = c.key }
        }

        op
    };

    let threads = src.vec(2, 3, |src| src.vec(1, 2, |src| {
        match src.weighted(&[7, 11, 1]) { 0 => Task::List(src.below(3) as u8), 1 => Task::Op(op(src)), _ => Task::Open }
    }));

    C20::Race { before, threads, order: src.vec(0, 60, |src| src.below(3) as u8) }
}

fn judge_faults(cx: &mut Cx, base: &Path, table: &Table, op: &Op, fault: Fault) -> Verdict {
    let dir = cx.fresh_dir();
    copy_tree(base, &dir).unwrap_or_else(|e| infra(format!("copy: {e}")));

    let router = open_router(cx, &dir);

    cx.ctl.arm(fault);
    let result = cx.block_on(perform(&router, op));
    let report = cx.ctl.disarm();

    cx.exec();

    let what = format!("{} with {fault:?} in {:?}", short(op), report.log.get(match fault { Fault::Crash { at, .. } | Fault::Fail { at, .. } => at as usize, Fault::None => 0 }));

    let mut goal = table.clone();
    apply(&mut goal, op);

    let check = |router: &GlobalTableRouter, when: &str| -> Result<Table, Fail> {
        let listed = cx.block_on(list(router, &[0, 1, 2])).map_err(|e| Fail(format!("{when} {what}: {e}")))?;
        let actual = as_table(listed)?;

        for key in actual.keys().chain(table.keys()).chain(goal.keys()) {
            let rec = actual.get(key);

            ensure!(
                rec == table.get(key) || rec == goal.get(key),
                "{when} {what}: record is {} but neither {} nor {}", short(&rec), short(&table.get(key)), short(&goal.get(key))
            );
        }

        Ok(actual)
    };

    let mut actual = table.clone();

    if !matches!(fault, Fault::Crash { .. }) {
        actual = check(&router, "after")?;

        if result.is_ok() {
            ensure!(actual == goal, "{what} succeeded without its effect: {}", diff(&actual, &goal));
        }
    }

    drop(router);

    let router = open_router(cx, &dir);
    let later = check(&router, "after the restart after")?;

    if !matches!(fault, Fault::Crash { .. }) {
        ensure!(later == actual, "the restart after {what} changed records: {}", diff(&later, &actual));
    }

    // It can be done again
    if let Err(err) = cx.block_on(perform(&router, op)) {
        fail!("the operation can't be repeated after {what}: {err}");
    }

    let listed = cx.block_on(list(&router, &[0, 1, 2])).map_err(Fail)?;
    let actual = as_table(listed)?;
    ensure!(actual == goal, "repeated after {what}: {}", diff(&actual, &goal));

    cx.remove_dir(&dir);

    Ok(())
}

/// Records the key may hold after the threads' operations in any order.
fn outcomes(old: Option<&Rec>, threads: &[Vec<Option<Rec>>]) -> Vec<Option<Rec>> {
    fn go(state: Option<Rec>, at: &mut Vec<usize>, threads: &[Vec<Option<Rec>>], out: &mut Vec<Option<Rec>>) {
        let mut end = true;

        for t in 0..threads.len() {
            if at[t] < threads[t].len() {
                end = false;
                let next = apply_part(state.as_ref(), &threads[t][at[t]]);
                at[t] += 1;
                go(next, at, threads, out);
                at[t] -= 1;
            }
        }

        if end && !out.contains(&state) {
            out.push(state);
        }
    }

    let mut out = vec![];
    go(old.cloned(), &mut vec![0; threads.len()], threads, &mut out);
    out
}

fn c20_run(case: &C20, cx: &mut Cx) -> Verdict {
    let (before, dir) = match case {
        C20::Faults { before, .. } | C20::Race { before, .. } => (before, cx.fresh_dir()),
    };

    let router = open_router(cx, &dir);
    let mut table = Table::new();

    for op in before {
        apply(&mut table, op);

        if let Err(err) = cx.block_on(perform(&router, op)) {
            fail!("{} fails: {err}", short(op));
        }
    }

    match case {
        C20::Faults { op, errno, .. } => {
            // Count the steps
            let dry = cx.fresh_dir();
            copy_tree(&dir, &dry).unwrap_or_else(|e| infra(format!("copy: {e}")));
            let copy = open_router(cx, &dry);
            cx.ctl.arm(Fault::None);
            let result = cx.block_on(perform(&copy, op));
            let report = cx.ctl.disarm();
            cx.remove_dir(&dry);

            if let Err(err) = result {
                fail!("{} fails: {err}", short(op));
            }

            if report.log.iter().any(|s| s.0.mutating()) && !table.is_empty() {
                cx.nontrivial();
            }

            cx.label(match op { Op::Disconnect(_) => "faults of disconnection", _ => "faults of indexing" });

            for (at, (kind, _)) in report.log.iter().enumerate() {
                let at = at as u64;
                judge_faults(cx, &dir, &table, op, Fault::Crash { at, torn: false })?;

                if *kind == Kind::Write {
                    judge_faults(cx, &dir, &table, op, Fault::Crash { at, torn: true })?;
                }

                judge_faults(cx, &dir, &table, op, Fault::Fail { at, errno: ERRNOS[*errno as usize % 4] })?;
            }

            // A listing that fails in the middle tells so
            cx.ctl.arm(Fault::None);
            let _ = cx.block_on(list(&router, &[0, 1, 2]));
            let steps = cx.ctl.disarm().steps;

            for at in 0..steps {
                cx.ctl.arm(Fault::Fail { at, errno: ERRNOS[*errno as usize % 4] });
                let listed = cx.block_on(list(&router, &[0, 1, 2]));
                cx.ctl.disarm();
                cx.exec();

                if let Ok(listed) = listed {
                    let actual = as_table(listed)?;
                    ensure!(actual == table, "listing whose step {at} fails is incomplete: {}", diff(&actual, &table));
                }
            }
        }

        C20::Race { threads, order, .. } => {
            let sched = Sched::new(threads.len());

            let results = std::thread::scope(|scope| {
                let handles = threads.iter().enumerate().map(|(i, tasks)| {
                    let slot = cx.slot(i);
                    let (router, sched, folder) = (router.clone(), sched.clone(), dir.join("table"));

                    scope.spawn(move || run_gated(&slot, &sched, i, async {
                        let mut out = vec![];

                        for task in tasks {
                            out.push(match task {
                                Task::Open => GlobalTableRouter::new(folder.clone()).await.map(|_| vec![]).map_err(|e| e.to_string()),
                                Task::Op(op) => perform(&router, op).await.map(|_| vec![]),
                                Task::List(t) => list(&router, &[*t]).await,
                            });
                        }

                        out
                    }))
                }).collect::<Vec<_>>();

                let mut n = 0;
                sched.drive(|waiting| {
                    let choice = order.get(n).copied().unwrap_or(0) as usize % waiting.len();
                    n += 1;
                    choice
                });

                handles.into_iter().map(|h| h.join()).collect::<Vec<_>>()
            });

            cx.exec();

            // What happens to each record
            let mut touched = BTreeMap::<(u8, String), Vec<Vec<Option<Rec>>>>::new();

            for (i, tasks) in threads.iter().enumerate() {
                for task in tasks {
                    if let Task::Op(op) = task {
                        for (key, new) in parts(op) {
                            touched.entry(key).or_insert_with(|| vec![vec![]; threads.len()])[i].push(new);
                        }
                    }
                }
            }

            let writers = threads.iter().filter(|t| t.iter().any(|t| matches!(t, Task::Op(_)))).count();
            let readers = threads.iter().filter(|t| t.iter().any(|t| matches!(t, Task::List(_)))).count();

            if writers > 1 || writers > 0 && readers > 0 {
                cx.nontrivial();
            }

            cx.label_if(writers > 0 && threads.iter().flatten().any(|t| matches!(t, Task::Open)), "opened while writing");
            cx.label_if(writers > 1, "several writers");
            cx.label_if(readers > 0 && writers > 0, "listing while writing");
            cx.label_if(touched.values().any(|t| t.iter().filter(|t| !t.is_empty()).count() > 1), "writers of one record");

            for (tasks, result) in threads.iter().zip(results) {
                let result = match result {
                    Ok(result) => result?,
                    Err(_) => infra("thread"),
                };

                for (task, result) in tasks.iter().zip(result) {
                    let listed = match result {
                        Ok(listed) => listed,
                        Err(err) => fail!("{} fails beside others: {err}", short(task)),
                    };

                    let Task::List(t) = task else { continue };
                    let n = listed.len();
                    let map = listed.iter().cloned().collect::<Table>();

                    for (key, rec) in table.iter().filter(|(k, _)| k.0 == *t) {
                        if !touched.contains_key(key) {
                            ensure!(map.get(key) == Some(rec), "listing misses or alters the untouched record {}: {}", short(rec), short(&map.get(key)));
                        }
                    }

                    // A record replaced while listing may appear twice, but never in a form nobody gave it
                    ensure!(n == map.len() || listed.iter().all(|(k, _)| touched.contains_key(k) || listed.iter().filter(|l| &l.0 == k).count() == 1), "listing repeats an untouched record");

                    for (key, rec) in &listed {
                        let known = table.get(key) == Some(rec) || touched.get(key).is_some_and(|t| t.iter().flatten().any(|r| r.as_ref() == Some(rec)));
                        ensure!(known, "listing gives a record nobody stored: {}", short(rec));
                    }
                }
            }

            // In the end
            for (router, when) in [(router.clone(), "in the end"), (open_router(cx, &dir), "after the restart")] {
                let listed = cx.block_on(list(&router, &[0, 1, 2])).map_err(Fail)?;
                let actual = as_table(listed)?;

                for key in actual.keys().chain(table.keys()).chain(touched.keys()) {
                    let possible = match touched.get(key) {
                        Some(threads) => outcomes(table.get(key), threads),
                        None => vec![table.get(key).cloned()],
                    };

                    ensure!(possible.contains(&actual.get(key).cloned()), "{when} the record is {}, which no order of the operations gives: {}", short(&actual.get(key)), short(&possible));
                }
            }
        }
    }

    cx.remove_dir(&dir);

    Ok(())
}

pub fn c20() -> Check {
    Def {
        id: "C20",
        level: "fault_enumeration",
        rule: "an operation on a table with other records under every single fault, or operations of which at least one writes running at once",
        assumptions: &[
            "completed file calls persist in their order",
            "a listing may miss or repeat records that are replaced or removed at the same time",
            "schedules are generated, not enumerated; threads step at file-system calls",
        ],
        quick: 3_000,
        thorough: 80_000,
        shards: 8,
        gen: c20_gen,
        run: c20_run,
    }.build()
}
