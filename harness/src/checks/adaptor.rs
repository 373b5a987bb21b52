//! C33: the library's HTTP server and HTTP client over the loopback interface.

use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use hyperborealib::http::client::HttpClient;
use hyperborealib::http::server::HttpServer;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::{AsJson, AsJsonError};

use crate::engine::*;
use crate::gens::*;
use crate::live::{port, Port, Running};
use crate::{ensure, fail};

use super::e2e::together;

/// Document with one mandatory field; some documents can't be written.
#[derive(Clone, Debug, PartialEq)]
struct Doc(Json);

const UNWRITABLE: &str = "#unwritable#";

impl AsJson for Doc {
    fn to_json(&self) -> Result<Json, AsJsonError> {
        if self.0 == UNWRITABLE {
            return Err(AsJsonError::Other("unwritable".into()));
        }

        Ok(json!({ "doc": self.0 }))
    }

    fn from_json(json: &Json) -> Result<Self, AsJsonError> {
        json.get("doc")
            .map(|doc| Self(doc.clone()))
            .ok_or(AsJsonError::FieldNotFound("doc"))
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Route {
    path: String,
    get: bool,
    post: bool,
    /// What GET gives.
    value: Json,
}

/// Body which isn't a document.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Junk {
    Empty,
    /// Valid JSON of another form.
    Other(Json),
    /// Document and something after it.
    Trailed(Json, String),
    /// Something and the document after it.
    Led(String, Json),
    /// Document without its end.
    Cut(Json, u64),
    /// Document with a byte changed to one no JSON text has there.
    NotUtf8,
    Surrogate,
    Bytes(Blob),
}

impl Junk {
    /// None, if it happens to be a document.
    fn bytes(&self) -> Option<Vec<u8>> {
        let bytes = match self {
            Junk::Empty => vec![],
            Junk::Other(json) => json.to_string().into_bytes(),
            Junk::Trailed(json, tail) => format!("{}{tail}", json!({ "doc": json })).into_bytes(),

            Junk::Led(head, json) => format!("{head}{}", json!({ "doc": json })).into_bytes(),

            Junk::Cut(json, n) => {
                let mut bytes = json!({ "doc": json }).to_string().into_bytes();
                bytes.truncate(*n as usize % bytes.len());
                bytes
            }

            Junk::NotUtf8 => b"{\"doc\":\"\xff\"}".to_vec(),
            Junk::Surrogate => b"{\"doc\":\"\\ud800\"}".to_vec(),
            Junk::Bytes(blob) => blob.bytes(),
        };

        match serde_json::from_slice::<Json>(&bytes) {
            Ok(json) if json.get("doc").is_some() => None,
            _ => Some(bytes),
        }
    }

    fn gen(src: &mut Src) -> Self {
        match src.weighted(&[2, 4, 3, 3, 1, 1, 3, 2]) {
            0 => Junk::Empty,
            1 => Junk::Other(value(src, 3)),
            2 => Junk::Trailed(value(src, 2), src.pick(&["x", "{}", "}", "\0", ",", "\"", "\u{feff}", "1", "[]", "null"]).to_string()),
            3 => Junk::Cut(value(src, 2), src.below(1 << 20)),
            4 => Junk::NotUtf8,
            5 => Junk::Surrogate,
            7 => Junk::Led(src.pick(&["\u{feff}", "\0", ")]}'\n", "// doc\n", "/**/", "x", "1", "{}", "data: ", "\u{a0}", "\u{c}", "\u{1e}"]).to_string(), value(src, 2)),
            _ => Junk::Bytes(blob(src, 5_000)),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Act {
    Get { route: u8, query: bool },
    Post { route: u8, value: Json },
    /// Through plain HTTP: escapes, spaces and chunks.
    Plain { route: u8, value: Json, spaced: bool, chunk: Option<u32> },
    Junk { route: u8, junk: Junk },
    /// The handler's reply can't be written.
    Unwritable { route: u8 },
    /// Neither the method nor the path is registered.
    Stray { method: u8, path: String },
    /// All at once.
    Burst(Vec<(u8, Json)>),
}

/// Reply of a server which isn't the library's one.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Reply {
    Document { status: u16, value: Json, framing: u8 },
    Junk { status: u16, junk: Junk, framing: u8 },
    /// Part of what was promised.
    Truncated { value: Json, missing: u32, chunked: bool },
    Closed,
    Headers,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C33 {
    routes: Vec<Route>,
    acts: Vec<Act>,
    replies: Vec<(bool, Reply)>,
}

/// JSON well below the server's limit of 2 MB.
fn value(src: &mut Src, depth: u32) -> Json {
    let value = any_value(src, depth);

    if value.to_string().len() > 1_000_000 { json!(1_000_000) } else { value }
}

fn any_value(src: &mut Src, depth: u32) -> Json {
    match src.weighted(&[4, 4, 3, 1, 1, if depth > 0 { 4 } else { 0 }, if depth > 0 { 4 } else { 0 }, 1]) {
        0 => json!(num(src)),
        1 => json!(text(src, 60)),
        2 => json!(-(num(src).min(i64::MAX as u64) as i64)),
        3 => json!((src.below(4001) as i64 - 2000) as f64 / 16.0),
        4 => src.pick(&[Json::Null, json!(true), json!(false)]).clone(),
        5 => src.vec(0, 4, |src| any_value(src, depth - 1)).into(),
        6 => Json::Object(src.vec(0, 4, |src| (text(src, 10), any_value(src, depth - 1))).into_iter().collect()),

        _ if depth > 0 && src.bool() => {
            let mut inner = any_value(src, 0);

            for _ in 0..src.below(60) {
                inner = if src.bool() { json!([inner]) } else { json!({ "doc": inner }) };
            }

            inner
        }

        _ => {
            let n = if src.chance(1, 4) { 300_000 } else { 3_000 };
            json!(hex(&blob(src, n).bytes()))
        }
    }
}

fn path(src: &mut Src) -> String {
    const PARTS: [&str; 16] = ["a", "api", "v1", "info", "Info", "send", "poll", "connect", "clients", "get", "post", "x-y", "x_y", "1", "a.b", "~t"];

    let n = src.below(4);
    let mut path = (0..n).map(|_| format!("/{}", src.pick(&PARTS))).collect::<String>();

    if n == 0 || src.chance(1, 8) {
        path.push('/');
    }

    path
}

fn c33_gen(src: &mut Src) -> C33 {
    let mut routes = Vec::<Route>::new();

    for _ in 0..src.range(1, 6) {
        let kind = src.weighted(&[2, 3, 3]);
        let route = Route { path: path(src), get: kind != 1, post: kind != 0, value: value(src, 3) };

        if routes.iter().all(|r| r.path != route.path) {
            routes.push(route);
        }
    }

    let n = routes.len() as u64;

    let acts = src.vec(1, 16, |src| {
        let route = src.below(n) as u8;

        match src.weighted(&[4, 7, 3, 5, 1, 2, 3]) {
            0 => Act::Get { route, query: src.chance(1, 4) },
            1 => Act::Post { route, value: value(src, 4) },
            2 => Act::Plain { route, value: value(src, 3), spaced: src.bool(), chunk: if src.bool() { Some(src.below(50) as u32 + 1) } else { None } },
            3 => Act::Junk { route, junk: Junk::gen(src) },
            4 => Act::Unwritable { route },
            5 => Act::Stray { method: src.below(4) as u8, path: if src.bool() { path(src) } else { routes[route as usize].path.clone() } },
            _ => Act::Burst(src.vec(2, 12, |src| (src.below(n) as u8, value(src, 2)))),
        }
    });

    let replies = src.vec(0, 5, |src| {
        let status = *src.pick(&[200, 200, 200, 201, 202, 400, 403, 404, 418, 500, 502, 503]);
        let framing = src.below(3) as u8;

        let reply = match src.weighted(&[3, 5, 3, 1, 1]) {
            0 => Reply::Document { status, value: value(src, 3), framing },
            1 => Reply::Junk { status, junk: Junk::gen(src), framing },
            2 => Reply::Truncated { value: value(src, 2), missing: src.below(1 << 16) as u32, chunked: src.bool() },
            3 => Reply::Closed,
            _ => Reply::Headers,
        };

        (src.bool(), reply)
    });

    C33 { routes, acts, replies }
}

/// Calls of the handlers: path, value (None for GET).
type Calls = Arc<Mutex<Vec<(String, Option<Json>)>>>;

/// What the POST handler of the path gives.
fn answer(path: &str, value: &Json) -> Json {
    if value == UNWRITABLE {
        return value.clone();
    }

    json!({ "path": path, "value": value })
}

async fn serve(routes: &[Route], calls: &Calls) -> AxumHttpServer {
    let mut server = AxumHttpServer::default();

    for route in routes {
        if route.get {
            let (calls, path, value) = (calls.clone(), route.path.clone(), route.value.clone());

            server.get(&route.path, move |_| async move {
                calls.lock().unwrap().push((path, None));

                Doc(value)
            }).await;
        }

        if route.post {
            let (calls, path) = (calls.clone(), route.path.clone());

            server.post(&route.path, move |_, Doc(value): Doc| async move {
                calls.lock().unwrap().push((path.clone(), Some(value.clone())));

                // Replies of concurrent requests get out of order
                for _ in 0..value.to_string().len() % 5 {
                    tokio::task::yield_now().await;
                }

                Doc(answer(&path, &value))
            }).await;
        }
    }

    server
}

/// Times a request is sent, if it fails before any handler runs. The server may
/// close a connection it hasn't read to the end, after it replied; the next
/// request on this connection is lost, and that's not the library's fault.
const TRIES: usize = 4;

/// Result of the request. It's sent again, by a fresh client, if it fails and
/// no handler is run by it, though there is one.
fn asked<T>(handled: bool, mut send: impl FnMut(&ReqwestHttpClient) -> Result<T, String>, http: &mut ReqwestHttpClient, calls: &Calls) -> Result<T, String> {
    for _ in 1..TRIES {
        let result = send(http);

        if !handled || result.is_ok() || !calls.lock().unwrap().is_empty() {
            return result;
        }

        *http = ReqwestHttpClient::default();
    }

    send(http)
}

/// Whole response of the connection: status, body.
fn exchange(address: SocketAddr, request: &[u8], calls: &Calls) -> (u16, Vec<u8>) {
    for _ in 1..TRIES {
        if let Ok(result) = exchange_once(address, request) {
            return result;
        }

        if !calls.lock().unwrap().is_empty() {
            break;
        }
    }

    exchange_once(address, request).unwrap_or_else(|err| infra(format!("exchange with {address}: {err}")))
}

fn exchange_once(address: SocketAddr, request: &[u8]) -> std::io::Result<(u16, Vec<u8>)> {
    let patience = Some(Duration::from_secs(120));

    let result = (|| {
        let mut stream = TcpStream::connect(address)?;
        stream.set_read_timeout(patience)?;
        stream.set_write_timeout(patience)?;

        // The server may reply and close before it reads everything
        let written = stream.write_all(request);
        let mut out = vec![];

        match stream.read_to_end(&mut out) {
            Err(err) if out.is_empty() => Err(err),
            _ if out.is_empty() => written.map(|_| out),
            _ => Ok(out),
        }
    })();

    let out = result?;
    let status = out.get(9..12).and_then(|s| std::str::from_utf8(s).ok()).and_then(|s| s.parse().ok()).unwrap_or(0);
    let body = out.windows(4).position(|w| w == b"\r\n\r\n").map_or(vec![], |at| out[at + 4..].to_vec());

    Ok((status, body))
}

fn request(method: &str, path: &str, body: Option<&[u8]>, chunk: Option<u32>) -> Vec<u8> {
    let mut out = format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n").into_bytes();

    if let Some(body) = body {
        out.extend(b"Content-Type: application/json\r\n");

        match chunk {
            None => {
                out.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes());
                out.extend(body);
            }

            Some(_) => {
                out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                out.extend(chunks(body, chunk, true));
            }
        }
    } else {
        out.extend(b"\r\n");
    }

    out
}

fn chunks(body: &[u8], chunk: Option<u32>, end: bool) -> Vec<u8> {
    let mut out = vec![];
    let size = chunk.map_or(1000, |n| (n as usize).max(body.len() / 500));

    for part in body.chunks(size.max(1)) {
        out.extend(format!("{:x}\r\n", part.len()).bytes());
        out.extend(part);
        out.extend(b"\r\n");
    }

    if end {
        out.extend(b"0\r\n\r\n");
    }

    out
}

/// The same JSON, written another way.
fn spaced(json: &Json) -> String {
    let escaped = |text: &str| {
        text.encode_utf16().map(|unit| format!("\\u{unit:04X}")).collect::<String>()
    };

    match json {
        Json::String(text) => format!(" \"{}\"\n", escaped(text)),
        Json::Array(items) => format!("[\t{}\r\n]", items.iter().map(spaced).collect::<Vec<_>>().join(" ,")),
        Json::Object(items) => format!("{{ {}}} ", items.iter().map(|(k, v)| format!("\"{}\" : {}", escaped(k), spaced(v))).collect::<Vec<_>>().join(",")),
        other => format!("\n{other} "),
    }
}

fn played(case: &C33, cx: &mut Cx, http: &mut ReqwestHttpClient, address: SocketAddr, calls: &Calls) -> Verdict {
    let take = || std::mem::take(&mut *calls.lock().unwrap());
    let (mut junk_seen, mut bursts) = (0, 0);

    for (i, act) in case.acts.iter().enumerate() {
        cx.exec();

        let what = format!("act {i} {}", short(act));

        // The route, and whether the method is there
        macro_rules! route {
            ($n:expr) => {
                match case.routes.get(*$n as usize) {
                    Some(route) => route,
                    None => continue,
                }
            };
        }

        let url = |path: &str| format!("http://{address}{path}");

        match act {
            Act::Get { route, query } => {
                let route = route!(route);
                let query = if *query { "?doc=1" } else { "" };
                let result = asked(route.get, |http| cx.block_on(http.get_request::<Doc>(format!("{}{query}", url(&route.path)))).map_err(|e| e.to_string()), http, calls);
                let calls = take();

                if route.get {
                    ensure!(calls == [(route.path.clone(), None)], "{what} runs the handlers {} and gives {}", short(&calls), short(&result));
                    ensure!(result == Ok(Doc(route.value.clone())), "{what} gives {} instead of {}", short(&result), short(&route.value));
                } else {
                    ensure!(calls.is_empty(), "{what} runs the handlers {} of another method", short(&calls));
                    ensure!(result.is_err(), "{what} gives {}", short(&result));
                }
            }

            Act::Post { route, value } => {
                let route = route!(route);
                let result = asked(route.post, |http| cx.block_on(http.post_request::<Doc, Doc>(url(&route.path), Doc(value.clone()))).map_err(|e| e.to_string()), http, calls);

                judge_post(&what, route, value, result, take())?;
            }

            Act::Unwritable { route } => {
                let route = route!(route);
                let body = json!({ "doc": UNWRITABLE });

                // Unlike what is written by the handler, this can be sent
                let result = asked(route.post, |http| cx.block_on(http.post(url(&route.path), body.clone())).map_err(|e| e.to_string()), http, calls);
                let calls = take();
                let expected = if route.post { vec![(route.path.clone(), Some(json!(UNWRITABLE)))] } else { vec![] };

                ensure!(calls == expected, "{what} runs the handlers {}", short(&calls));

                if let Ok(response) = result {
                    ensure!(response.status >= 400, "{what} is answered with {}", short(&response));
                }
            }

            Act::Plain { route, value, spaced: wide, chunk } => {
                let route = route!(route);
                let doc = json!({ "doc": value });
                let body = Some(spaced(&doc)).filter(|text| *wide && text.len() < 1_500_000).unwrap_or_else(|| doc.to_string());

                let (status, body) = exchange(address, &request("POST", &route.path, Some(body.as_bytes()), *chunk), calls);

                let result = match serde_json::from_slice::<Json>(&body) {
                    Ok(json) if (200..300).contains(&status) => Doc::from_json(&json).map_err(|e| e.to_string()),
                    _ => Err(format!("HTTP {status}, {}", short(&String::from_utf8_lossy(&body)))),
                };

                judge_post(&what, route, value, result, take())?;
            }

            Act::Junk { route, junk } => {
                let route = route!(route);
                let Some(body) = junk.bytes() else { continue };

                let (status, _) = exchange(address, &request("POST", &route.path, Some(&body), None), calls);
                let calls = take();

                ensure!(calls.is_empty(), "{what} runs the handlers {}", short(&calls));
                ensure!((400..600).contains(&status), "{what} is answered with the status {status}");

                junk_seen += 1;
            }

            Act::Stray { method, path } => {
                let method = ["GET", "POST", "PUT", "DELETE"][*method as usize % 4];

                if case.routes.iter().any(|r| &r.path == path && (r.get && method == "GET" || r.post && method == "POST")) {
                    continue;
                }

                let body = b"{\"doc\":1}";
                let (status, _) = exchange(address, &request(method, path, if method == "GET" { None } else { Some(body) }, None), calls);
                let calls = take();

                ensure!(calls.is_empty(), "{what} runs the handlers {}", short(&calls));
                ensure!((400..600).contains(&status), "{what} is answered with the status {status}");
            }

            Act::Burst(posts) => {
                let posts = posts.iter().filter(|(n, _)| (*n as usize) < case.routes.len()).collect::<Vec<_>>();

                *http = ReqwestHttpClient::default();

                let requests = posts.iter().map(|(n, value)| {
                    let url = url(&case.routes[*n as usize].path);
                    let http = http.clone();

                    async move { http.post_request::<Doc, Doc>(url, Doc(value.clone())).await.map_err(|e| e.to_string()) }
                }).collect::<Vec<_>>();

                let results = cx.block_on(together(requests));
                let mut calls = take();

                for ((n, value), mut result) in posts.iter().zip(results) {
                    let route = &case.routes[*n as usize];
                    let mut own = calls.iter().position(|(path, got)| *path == route.path && got.as_ref() == Some(value));

                    if own.is_none() && result.is_err() && route.post {
                        let again = || cx.block_on(ReqwestHttpClient::default().post_request::<Doc, Doc>(url(&route.path), Doc(value.clone()))).map_err(|e| e.to_string());

                        result = again();
                        calls.append(&mut take());
                        own = calls.iter().position(|(path, got)| *path == route.path && got.as_ref() == Some(value));
                    }

                    judge_post(&what, route, value, result, own.map(|at| calls.swap_remove(at)).into_iter().collect())?;
                }

                ensure!(calls.is_empty(), "{what}: further runs of handlers {}", short(&calls));
                bursts += 1;
            }
        }
    }

    cx.label_if(junk_seen > 0, "bodies which aren't documents");
    cx.label_if(bursts > 0, "concurrent requests");

    Ok(())
}

fn judge_post(what: &str, route: &Route, value: &Json, result: Result<Doc, String>, calls: Vec<(String, Option<Json>)>) -> Verdict {
    if !route.post {
        ensure!(calls.is_empty(), "{what} runs the handlers {} of another method", short(&calls));
        ensure!(result.is_err(), "{what} gives {}", short(&result));

        return Ok(());
    }

    ensure!(calls == [(route.path.clone(), Some(value.clone()))], "{what} runs the handlers {} and gives {}", short(&calls), short(&result));

    match result {
        Ok(Doc(got)) => {
            let expected = answer(&route.path, value);
            ensure!(got == expected, "{what} gives {} instead of {}", short(&got), short(&expected));
        }

        Err(err) => fail!("{what} fails: {err}"),
    }

    Ok(())
}

/// Server giving the reply to every request until it's dropped.
struct Scripted {
    address: SocketAddr,
    _port: Port,
    over: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Scripted {
    fn start(shard: usize, reply: Vec<u8>) -> Self {
        let port = port(shard);
        let address = port.address;
        let listener = TcpListener::bind(address).unwrap_or_else(|err| infra(format!("scripted server: {err}")));
        let over = Arc::new(AtomicBool::new(false));

        let thread = std::thread::spawn({
            let over = over.clone();

            move || {
                for stream in listener.incoming() {
                    if over.load(Ordering::SeqCst) { break; }
                    if let Ok(stream) = stream { let _ = Self::answer(stream, &reply); }
                }
            }
        });

        Self { address, _port: port, over, thread: Some(thread) }
    }

    fn answer(mut stream: TcpStream, reply: &[u8]) -> std::io::Result<()> {
        stream.set_read_timeout(Some(Duration::from_secs(120)))?;

        let mut got = vec![];
        let mut part = [0; 16384];

        // The whole request
        loop {
            let n = stream.read(&mut part)?;
            got.extend(&part[..n]);

            if n == 0 { return Ok(()); }

            let Some(at) = got.windows(4).position(|w| w == b"\r\n\r\n") else { continue };
            let head = String::from_utf8_lossy(&got[..at]).to_lowercase();

            let length = head.lines()
                .find_map(|line| line.strip_prefix("content-length:"))
                .and_then(|n| n.trim().parse::<usize>().ok())
                .unwrap_or(0);

            if got.len() >= at + 4 + length { break; }
        }

        stream.write_all(reply)?;
        stream.shutdown(Shutdown::Write)?;

        // Until the other side closes
        while stream.read(&mut part)? > 0 {}

        Ok(())
    }
}

impl Drop for Scripted {
    fn drop(&mut self) {
        self.over.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(self.address);

        if let Some(thread) = self.thread.take() {
            let _ = thread.join();
        }
    }
}

fn response(status: u16, body: &[u8], framing: u8) -> Vec<u8> {
    let mut out = format!("HTTP/1.1 {status} Some\r\nContent-Type: text/json\r\nConnection: close\r\n").into_bytes();

    match framing % 3 {
        0 => {
            out.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes());
            out.extend(body);
        }

        1 => {
            out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            out.extend(chunks(body, Some(7), true));
        }

        // Until the end of the connection
        _ => {
            out.extend(b"\r\n");
            out.extend(body);
        }
    }

    out
}

fn answered(case: &C33, cx: &mut Cx, http: &ReqwestHttpClient) -> Verdict {
    for (post, reply) in &case.replies {
        cx.exec();

        let what = format!("{} answered with {}", if *post { "POST" } else { "GET" }, short(reply));

        // Status, JSON and the document, if the reply is whole
        let (bytes, status, json) = match reply {
            Reply::Document { status, value, framing } => {
                let json = json!({ "doc": value });
                (response(*status, json.to_string().as_bytes(), *framing), *status, Some(json))
            }

            Reply::Junk { status, junk, framing } => {
                let Some(body) = junk.bytes() else { continue };
                (response(*status, &body, *framing), *status, serde_json::from_slice(&body).ok())
            }

            Reply::Truncated { value, missing, chunked } => {
                let body = json!({ "doc": value }).to_string().into_bytes();
                let kept = *missing as usize % (body.len() + 1);
                let mut out = b"HTTP/1.1 200 OK\r\nContent-Type: text/json\r\n".to_vec();

                if *chunked {
                    out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                    out.extend(chunks(&body[..kept], None, false));
                } else {
                    out.extend(format!("Content-Length: {}\r\n\r\n", body.len() + (kept == body.len()) as usize).bytes());
                    out.extend(&body[..kept]);
                }

                (out, 200, None)
            }

            Reply::Closed => (vec![], 0, None),
            Reply::Headers => (b"HTTP/1.1 200 OK\r\nContent-Len".to_vec(), 0, None),
        };

        let server = Scripted::start(cx.shard, bytes);
        let url = format!("http://{}/any", server.address);
        let sent = json!({ "doc": [1] });

        let raw = cx.block_on(async {
            match post {
                true => http.post(&url, sent).await,
                false => http.get(&url).await,
            }
        }).map_err(|e| e.to_string());

        let read = cx.block_on(async {
            match post {
                true => http.post_request::<Doc, Doc>(&url, Doc(json!([1]))).await,
                false => http.get_request::<Doc>(&url).await,
            }
        }).map_err(|e| e.to_string());

        let doc = json.as_ref().and_then(|json| Doc::from_json(json).ok());

        match &json {
            None => {
                if let Ok(response) = &raw {
                    ensure!(response.body.is_none(), "{what} gives {}", short(response));
                }
            }

            Some(json) => match &raw {
                Ok(response) => {
                    ensure!(response.status == status && response.body.as_ref() == Some(json), "{what} gives {}", short(response));
                }

                Err(err) => ensure!(!(200..300).contains(&status), "{what} fails: {err}"),
            },
        }

        match doc {
            None => ensure!(read.is_err(), "{what} is read as {}", short(&read)),

            Some(doc) => match read {
                Ok(got) => ensure!(got == doc, "{what} is read as {}", short(&got)),
                Err(err) => ensure!(!(200..300).contains(&status), "{what} can't be read: {err}"),
            },
        }

        cx.label(if json.is_some() { "whole foreign reply" } else { "broken foreign reply" });
    }

    Ok(())
}

fn c33_run(case: &C33, cx: &mut Cx) -> Verdict {
    let calls = Calls::default();
    let mut http = ReqwestHttpClient::default();
    let port = port(cx.shard);
    let address = port.address;

    let server = Running::start(address, || serve(&case.routes, &calls));
    let verdict = played(case, cx, &mut http, address, &calls);

    drop(server);

    verdict?;
    answered(case, cx, &http)?;

    if case.acts.len() > 3 && case.routes.len() > 1 {
        cx.nontrivial();
    }

    Ok(())
}

pub fn c33() -> Check {
    Def {
        id: "C33",
        level: "exploration",
        rule: "at least two routes and four acts of clients",
        assumptions: &[
            "paths are of unreserved characters, bodies are below 1 MB, and documents are nested below 64 levels",
            "a reply with an error status and a valid document may be taken or refused",
        ],
        quick: 40_000,
        thorough: 2_000_000,
        shards: 8,
        gen: c33_gen,
        run: c33_run,
    }.build()
}
