//! Real servers and clients over HTTP on the loopback interface.

use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock, RwLock};
use std::time::Duration;

use serde_json::Value as Json;

use hyperborealib::http::client::{HttpClient, Response as HttpResponse};
use hyperborealib::http::server::HttpServer;
use hyperborealib::prelude::*;

use crate::engine::infra;
use crate::net::BoxError;

const FIRST: u64 = 14_000;
const PER_SHARD: u64 = 1_800;

static NEXT: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];

/// TCP port nobody else uses. The UDP port of the same number, kept bound,
/// tells this to other processes of the harness.
pub struct Port {
    pub address: SocketAddr,
    _claim: UdpSocket,
}

/// Free port of the shard's range, below those given to outgoing connections,
/// at changing loopback addresses. Closed connections are remembered
/// by the system for a minute, and don't fill the ports of one address this way.
pub fn port(shard: usize) -> Port {
    static MANY: OnceLock<bool> = OnceLock::new();

    let many = *MANY.get_or_init(|| UdpSocket::bind(("127.3.2.1", 0)).is_ok());

    port_of(shard, |n| match many {
        true => Ipv4Addr::new(127, 1 + (n / 62_500 % 250) as u8, 1 + (n / 250 % 250) as u8, 1 + (n % 250) as u8),
        false => Ipv4Addr::LOCALHOST,
    })
}

fn port_of(shard: usize, ip: impl Fn(u64) -> Ipv4Addr) -> Port {
    let shard = shard % 10;

    for _ in 0..PER_SHARD {
        let n = NEXT[shard].fetch_add(1, Ordering::Relaxed) + std::process::id() as u64 * 7;
        let number = (FIRST + shard as u64 * PER_SHARD + n % PER_SHARD) as u16;
        let address = SocketAddr::from((ip(n), number));

        let Ok(claim) = UdpSocket::bind(address) else { continue };

        if TcpListener::bind(address).is_ok() {
            return Port { address, _claim: claim };
        }
    }

    infra("no free port")
}

/// Client of the library, replaced by a fresh one when its connections may be stale.
#[derive(Clone, Default)]
pub struct Live(Arc<RwLock<ReqwestHttpClient>>);

impl Live {
    pub fn renew(&self) {
        *self.0.write().unwrap() = ReqwestHttpClient::default();
    }

    fn current(&self) -> ReqwestHttpClient {
        self.0.read().unwrap().clone()
    }
}

#[async_trait::async_trait]
impl HttpClient for Live {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, BoxError> {
        self.current().get(url).await
    }

    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, BoxError> {
        self.current().post(url, body).await
    }
}

/// Server running in its own runtime; stopped when dropped.
pub struct Running(Option<tokio::runtime::Runtime>);

impl Running {
    /// Make a web server and run it at the address.
    pub fn start<F, R>(address: SocketAddr, build: F) -> Self
    where
        F: FnOnce() -> R,
        R: std::future::Future<Output = AxumHttpServer>
    {
        let salt = crate::gens::salt();

        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(1)
            .on_thread_start(move || crate::gens::set_salt(salt))
            .enable_all()
            .build()
            .unwrap_or_else(|err| infra(format!("runtime: {err}")));

        let server = rt.block_on(build());

        let ended = Arc::new(Mutex::new(None::<String>));

        rt.spawn({
            let ended = ended.clone();

            async move {
                let text = match server.serve(address).await {
                    Ok(()) => String::from("ended"),
                    Err(err) => err.to_string(),
                };

                *ended.lock().unwrap() = Some(text);
            }
        });

        for _ in 0..10_000 {
            if let Some(text) = &*ended.lock().unwrap() {
                infra(format!("server at {address} doesn't start: {text}"));
            }

            if TcpStream::connect_timeout(&address, Duration::from_secs(10)).is_ok() {
                return Self(Some(rt));
            }

            std::thread::sleep(Duration::from_millis(1));
        }

        infra(format!("server at {address} doesn't start"))
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        if let Some(rt) = self.0.take() {
            rt.shutdown_timeout(Duration::from_secs(30));
        }
    }
}
