//! In-memory network: captured request handlers, scripted servers, in-memory storages.

use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::net::{SocketAddr, ToSocketAddrs};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use serde_json::Value as Json;

use hyperborealib::drivers::server::ServerParams;
use hyperborealib::http::client::{HttpClient, Response as HttpResponse};
use hyperborealib::http::server::HttpServer;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;

use crate::engine::{infra, Cx, Fail};
use crate::gens::*;

pub type BoxError = Box<dyn std::error::Error + Send + Sync>;

// ------------------------------------------------------------------ handlers

/// What the web server would answer.
#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    /// Text of the JSON document.
    Json(String),
    /// HTTP error with the text.
    Refused(String),
}

type Handler = Arc<dyn Fn(SocketAddr, Option<String>) -> Pin<Box<dyn Future<Output = Reply> + Send>> + Send + Sync>;

/// Web server that keeps the handlers it's given.
#[derive(Clone, Default)]
pub struct Routes {
    routes: Arc<Mutex<HashMap<(&'static str, String), Handler>>>,
}

fn to_reply<T: AsJson>(value: &T) -> Reply {
    match value.to_json() {
        Ok(json) => Reply::Json(json.to_string()),
        Err(err) => Reply::Refused(err.to_string()),
    }
}

#[async_trait::async_trait]
impl HttpServer for Routes {
    async fn get<T: AsJson, F: Future<Output = T> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr) -> F + Clone + Send + Sync + 'static
    ) {
        let handler = move |address: SocketAddr, _: Option<String>| -> Pin<Box<dyn Future<Output = Reply> + Send>> {
            let callback = callback.clone();

            Box::pin(async move {
                let value = callback(address).await;

                to_reply(&value)
            })
        };

        self.routes.lock().unwrap().insert(("GET", path.as_ref().to_string()), Arc::new(handler));
    }

    async fn post<T: AsJson, F: AsJson, R: Future<Output = F> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr, T) -> R + Clone + Send + Sync + 'static
    ) {
        let handler = move |address: SocketAddr, body: Option<String>| -> Pin<Box<dyn Future<Output = Reply> + Send>> {
            let callback = callback.clone();

            Box::pin(async move {
                let json = match serde_json::from_str::<Json>(&body.unwrap_or_default()) {
                    Ok(json) => json,
                    Err(err) => return Reply::Refused(err.to_string()),
                };

                let request = match T::from_json(&json) {
                    Ok(request) => request,
                    Err(err) => return Reply::Refused(err.to_string()),
                };

                let value = callback(address, request).await;

                to_reply(&value)
            })
        };

        self.routes.lock().unwrap().insert(("POST", path.as_ref().to_string()), Arc::new(handler));
    }

    async fn serve(self, _address: impl ToSocketAddrs + Send) -> Result<(), Box<dyn std::error::Error>> {
        Ok(())
    }
}

impl Routes {
    pub async fn call(&self, method: &'static str, path: &str, body: Option<String>) -> Reply {
        let handler = self.routes.lock().unwrap().get(&(method, path.to_string())).cloned();

        match handler {
            Some(handler) => handler(SocketAddr::from(([127, 0, 0, 1], 50_000)), body).await,
            None => Reply::Refused(String::from("404")),
        }
    }
}

// ------------------------------------------------------------------- network

pub enum Outcome {
    Json(Json),
    NoBody,
    Refused,
}

pub type Script = Arc<dyn Fn(&str, &str, Option<&Json>) -> Outcome + Send + Sync>;

#[derive(Clone)]
pub enum Node {
    Server(Routes),
    Script(Script),
}

#[derive(Clone, Debug)]
pub struct Exchange {
    pub url: String,
    pub request: Option<String>,
    pub reply: Option<String>,
}

#[derive(Default)]
pub struct NetState {
    nodes: Mutex<HashMap<String, Node>>,
    log: Mutex<Vec<Exchange>>,
    requests: AtomicU64,
    budget: AtomicU64,
}

/// HTTP client of the in-memory network. Everything travels as text.
#[derive(Clone, Default)]
pub struct Net(pub Arc<NetState>);

impl Net {
    pub fn new(budget: u64) -> Self {
        let net = Self::default();
        net.0.budget.store(budget, Ordering::Relaxed);
        net
    }

    pub fn add(&self, address: &str, node: Node) {
        self.0.nodes.lock().unwrap().insert(address.to_string(), node);
    }

    pub fn script(&self, address: &str, script: impl Fn(&str, &str, Option<&Json>) -> Outcome + Send + Sync + 'static) {
        self.add(address, Node::Script(Arc::new(script)));
    }

    pub fn requests(&self) -> u64 {
        self.0.requests.load(Ordering::Relaxed)
    }

    pub fn reset(&self) {
        self.0.requests.store(0, Ordering::Relaxed);
        self.0.log.lock().unwrap().clear();
    }

    pub fn log(&self) -> Vec<Exchange> {
        self.0.log.lock().unwrap().clone()
    }

    async fn exchange(&self, method: &'static str, url: &str, body: Option<Json>) -> Result<HttpResponse, BoxError> {
        let n = self.0.requests.fetch_add(1, Ordering::Relaxed);

        if n >= self.0.budget.load(Ordering::Relaxed) {
            // Whoever still asks has been going in circles: stop the case
            std::panic::panic_any(OverBudget);
        }

        // Let others run
        tokio::task::yield_now().await;

        let text = body.map(|body| body.to_string());

        let mut exchange = Exchange { url: url.to_string(), request: text.clone(), reply: None };

        let node = url.strip_prefix("http://").or_else(|| url.strip_prefix("https://"))
            .and_then(|rest| rest.find("/api/v1/").map(|at| (rest[..at].to_string(), rest[at..].to_string())))
            .and_then(|(address, path)| {
                let node = self.0.nodes.lock().unwrap().get(&address).cloned();
                node.map(|node| (node, path))
            });

        let result = match node {
            None => Err("connection refused".into()),

            Some((Node::Server(routes), path)) => match routes.call(method, &path, text).await {
                Reply::Json(text) => {
                    exchange.reply = Some(text.clone());

                    serde_json::from_str::<Json>(&text)
                        .map(|json| HttpResponse { status: 200, body: Some(json) })
                        .map_err(|err| err.into())
                }

                Reply::Refused(text) => {
                    exchange.reply = Some(text);

                    Err("error decoding response body".into())
                }
            },

            Some((Node::Script(script), path)) => {
                let request = text.as_deref().and_then(|text| serde_json::from_str::<Json>(text).ok());

                match script(method, &path, request.as_ref()) {
                    Outcome::Json(json) => {
                        let text = json.to_string();
                        exchange.reply = Some(text.clone());

                        Ok(HttpResponse { status: 200, body: Some(serde_json::from_str(&text)?) })
                    }

                    Outcome::NoBody => Ok(HttpResponse { status: 200, body: None }),
                    Outcome::Refused => Err("connection refused".into()),
                }
            }
        };

        self.0.log.lock().unwrap().push(exchange);

        result
    }
}

/// Raised when an operation keeps making requests.
pub struct OverBudget;

/// Run code under test which uses the network; too many requests are a failure.
pub fn bounded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(value) => Ok(value),
        Err(payload) if payload.is::<OverBudget>() => Err(Fail(format!("{what} keeps making requests without an end"))),
        Err(payload) => std::panic::resume_unwind(payload),
    }
}

#[async_trait::async_trait]
impl HttpClient for Net {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, BoxError> {
        self.exchange("GET", url.as_ref(), None).await
    }

    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, BoxError> {
        self.exchange("POST", url.as_ref(), Some(body)).await
    }
}

// ------------------------------------------------------------------ storages

#[derive(Debug)]
pub struct StorageError;

impl std::fmt::Display for StorageError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "storage is out of order")
    }
}

impl std::error::Error for StorageError {}

/// Failures of the storages' calls.
#[derive(Default, Clone, Copy, Debug, PartialEq)]
pub enum Trouble {
    #[default]
    None,
    /// Calls from this one on fail without an effect.
    Before(u64),
    /// Calls from this one on take effect but report a failure.
    After(u64),
}

#[derive(Default)]
pub struct MemState {
    pub local: Vec<Client>,
    pub remote: Vec<(Client, Server)>,
    pub servers: Vec<Server>,
    pub inbox: BTreeMap<(String, String), Vec<MessageInfo>>,
    pub trouble: Trouble,
    pub calls: u64,
    pub failed: bool,
}

/// In-memory router and inbox with injected failures.
#[derive(Clone, Default)]
pub struct Mem(pub Arc<Mutex<MemState>>);

impl Mem {
    fn op<T>(&self, f: impl FnOnce(&mut MemState) -> T) -> Result<T, StorageError> {
        let mut s = self.0.lock().unwrap();
        let n = s.calls;
        s.calls += 1;

        match s.trouble {
            Trouble::Before(at) if n >= at => {
                s.failed = true;
                Err(StorageError)
            }

            Trouble::After(at) if n >= at => {
                s.failed = true;
                f(&mut s);
                Err(StorageError)
            }

            _ => Ok(f(&mut s)),
        }
    }

    pub fn arm(&self, trouble: Trouble) {
        let mut s = self.0.lock().unwrap();
        s.trouble = trouble;
        s.calls = 0;
        s.failed = false;
    }
}

#[async_trait::async_trait]
impl Router for Mem {
    type Error = StorageError;

    async fn index_local_client(&self, client: Client) -> Result<bool, StorageError> {
        self.op(|s| {
            s.local.retain(|c| c.public_key != client.public_key);
            s.local.push(client);
            true
        })
    }

    async fn index_remote_client(&self, client: Client, server: Server) -> Result<bool, StorageError> {
        self.op(|s| {
            if let Some((old, _)) = s.remote.iter().find(|(c, _)| c.public_key == client.public_key) {
                if old.certificate.token.auth_date > client.certificate.token.auth_date {
                    return false;
                }
            }

            s.remote.retain(|(c, _)| c.public_key != client.public_key);
            s.remote.push((client, server));
            true
        })
    }

    async fn index_server(&self, server: Server) -> Result<bool, StorageError> {
        self.op(|s| {
            s.servers.retain(|c| c.public_key != server.public_key);
            s.servers.push(server);
            true
        })
    }

    async fn disconnect(&self, public_key: &PublicKey) -> Result<(), StorageError> {
        self.op(|s| {
            s.local.retain(|c| &c.public_key != public_key);
            s.remote.retain(|(c, _)| &c.public_key != public_key);
            s.servers.retain(|c| &c.public_key != public_key);
        })
    }

    async fn local_clients(&self) -> Result<Vec<Client>, StorageError> {
        self.op(|s| s.local.clone())
    }

    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, StorageError> {
        self.op(|s| s.remote.clone())
    }

    async fn servers(&self) -> Result<Vec<Server>, StorageError> {
        self.op(|s| s.servers.clone())
    }
}

#[async_trait::async_trait]
impl MessagesInbox for Mem {
    type Error = StorageError;

    async fn add_message(&self, sender: Sender, receiver: PublicKey, channel: String, message: Message) -> Result<(), StorageError> {
        self.op(|s| {
            let key = (receiver.to_base64(), channel.clone());

            s.inbox.entry(key).or_default().push(MessageInfo { sender, channel, message, received_at: 1 });
        })
    }

    async fn poll_messages(&self, receiver: PublicKey, channel: String, limit: Option<u64>) -> Result<(Vec<MessageInfo>, u64), StorageError> {
        self.op(|s| {
            let queue = s.inbox.entry((receiver.to_base64(), channel)).or_default();
            let n = limit.unwrap_or(u64::MAX).min(queue.len() as u64) as usize;
            let polled = queue.drain(..n).collect::<Vec<_>>();

            (polled, queue.len() as u64)
        })
    }
}

/// Everything a server holds, by key.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Holdings {
    pub local: BTreeMap<String, Client>,
    pub remote: BTreeMap<String, (Client, Server)>,
    pub servers: BTreeMap<String, Server>,
    pub inbox: BTreeMap<(String, String), Vec<MessageInfo>>,
}

pub fn unique<T>(what: &str, items: Vec<(String, T)>) -> Result<BTreeMap<String, T>, Fail> {
    let n = items.len();
    let map = items.into_iter().collect::<BTreeMap<_, _>>();

    if map.len() != n {
        return Err(Fail(format!("{what} lists a key twice")));
    }

    Ok(map)
}

/// Time of arrival isn't compared.
pub fn timeless(mut info: MessageInfo) -> MessageInfo {
    info.received_at = 0;
    info
}

pub enum Storage {
    Mem(Mem),
    Stored(PathBuf),
}

pub fn copy_tree(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;

    for entry in std::fs::read_dir(from)? {
        let entry = entry?;
        let target = to.join(entry.file_name());

        if entry.file_type()?.is_dir() {
            copy_tree(&entry.path(), &target)?;
        } else {
            std::fs::write(&target, std::fs::read(entry.path())?)?;
        }
    }

    Ok(())
}

pub fn open_router(cx: &Cx, dir: &Path) -> GlobalTableRouter {
    cx.block_on(GlobalTableRouter::new(dir.join("table"))).unwrap_or_else(|err| infra(format!("can't open the table: {err}")))
}

pub fn open_inbox(cx: &Cx, dir: &Path) -> StoredQueueMessagesInbox {
    cx.block_on(StoredQueueMessagesInbox::new(dir.join("inbox"))).unwrap_or_else(|err| infra(format!("can't open the inbox: {err}")))
}

/// Server with its handlers captured.
pub struct TestServer {
    pub key: KeyId,
    pub address: String,
    pub storage: Storage,
    pub routes: Routes,
}

impl TestServer {
    pub fn new(cx: &mut Cx, key: KeyId, address: &str, stored: bool, net: Net) -> Self {
        let storage = if stored { Storage::Stored(cx.fresh_dir()) } else { Storage::Mem(Mem::default()) };

        let mut server = Self { key, address: address.to_string(), storage, routes: Routes::default() };
        server.reopen(cx, net);
        server
    }

    /// Start the server anew over the same storage.
    pub fn reopen(&mut self, cx: &mut Cx, net: Net) {
        let params = ServerParams { secret_key: secret(self.key), address: self.address.clone() };

        self.routes = match &self.storage {
            Storage::Mem(mem) => {
                let driver = ServerDriver::new(mem.clone(), BfsRecursionTraversal, mem.clone(), params);
                cx.block_on(ServerMiddleware::new(net, Routes::default(), driver)).http_server().clone()
            }

            Storage::Stored(dir) => {
                let driver = ServerDriver::new(open_router(cx, dir), BfsRecursionTraversal, open_inbox(cx, dir), params);
                cx.block_on(ServerMiddleware::new(net, Routes::default(), driver)).http_server().clone()
            }
        };
    }

    pub fn close(self, cx: &mut Cx) {
        if let Storage::Stored(dir) = &self.storage {
            cx.remove_dir(&dir.clone());
        }
    }

    pub fn post(&self, cx: &Cx, path: &str, body: String) -> Reply {
        cx.block_on(self.routes.call("POST", path, Some(body)))
    }

    pub fn get(&self, cx: &Cx, path: &str) -> Reply {
        cx.block_on(self.routes.call("GET", path, None))
    }

    /// Look at everything the server holds without changing it.
    pub fn holdings(&self, cx: &mut Cx, receivers: &[KeyId], channels: &[String]) -> Result<Holdings, Fail> {
        fn tables(local: Vec<Client>, remote: Vec<(Client, Server)>, servers: Vec<Server>) -> Result<Holdings, Fail> {
            Ok(Holdings {
                local: unique("the list of clients", local.into_iter().map(|c| (c.public_key.to_base64(), c)).collect())?,
                remote: unique("the list of announced clients", remote.into_iter().map(|c| (c.0.public_key.to_base64(), c)).collect())?,
                servers: unique("the list of servers", servers.into_iter().map(|c| (c.public_key.to_base64(), c)).collect())?,
                inbox: BTreeMap::new(),
            })
        }

        match &self.storage {
            Storage::Mem(mem) => {
                let s = mem.0.lock().unwrap();
                let mut all = tables(s.local.clone(), s.remote.clone(), s.servers.clone())?;

                for (key, queue) in &s.inbox {
                    if !queue.is_empty() {
                        all.inbox.insert(key.clone(), queue.iter().cloned().map(timeless).collect());
                    }
                }

                Ok(all)
            }

            Storage::Stored(dir) => {
                let dir = dir.clone();
                let router = open_router(cx, &dir);

                let (local, remote, servers) = cx.block_on(async {
                    (router.local_clients().await, router.remote_clients().await, router.servers().await)
                });

                let text = |err: &dyn std::fmt::Display| Fail(format!("routing table can't be read: {err}"));

                let mut all = tables(local.map_err(|e| text(&e))?, remote.map_err(|e| text(&e))?, servers.map_err(|e| text(&e))?)?;

                // Poll a copy of the inbox
                let copy = cx.fresh_dir();
                copy_tree(&dir.join("inbox"), &copy.join("inbox")).unwrap_or_else(|err| infra(format!("copy: {err}")));
                let inbox = open_inbox(cx, &copy);

                for receiver in receivers {
                    for channel in channels {
                        let (queue, rest) = cx.block_on(inbox.poll_messages(public(*receiver), channel.clone(), None))
                            .map_err(|err| Fail(format!("inbox can't be read: {err}")))?;

                        if rest != 0 {
                            return Err(Fail(format!("{rest} messages remain after reading all")));
                        }

                        if !queue.is_empty() {
                            all.inbox.insert((crate::refimpl::public_b64(*receiver), channel.clone()), queue.into_iter().map(timeless).collect());
                        }
                    }
                }

                cx.remove_dir(&copy);

                Ok(all)
            }
        }
    }
}
