//! Stand-in for the `easy-upnp` crate: same public API as far as hyperborealib
//! can use it, but instead of talking to a real gateway it applies every call to a
//! simulated one (a table of mappings with scripted failures).
//! No packet ever leaves the process.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

#[derive(Debug, thiserror::Error)]
pub enum Error {
    #[error("No matching gateway found")]
    NoMatchingGateway,

    #[error("Could not get interface address: {0}")]
    CannotGetInterfaceAddress(#[source] std::io::Error),
}

type Result<R> = std::result::Result<R, Error>;

#[derive(Debug, Clone)]
pub struct Ipv4Cidr;

#[allow(clippy::upper_case_acronyms)]
#[derive(Clone, Copy, Debug)]
pub enum PortMappingProtocol {
    TCP,
    UDP,
}

#[derive(Debug)]
pub struct UpnpConfig {
    pub address: Option<Ipv4Cidr>,
    pub port: u16,
    pub protocol: PortMappingProtocol,
    pub duration: u32,
    pub comment: String,
}

/// State of the simulated gateway.
#[derive(Debug, Default, Clone)]
pub struct SimGateway {
    /// (port, is_udp) -> lease duration in seconds
    pub mappings: BTreeMap<(u16, bool), u32>,
    /// Result of the n-th following call: `true` = the call fails.
    pub script: Vec<bool>,
    /// How many gateway calls were made.
    pub calls: usize,
    /// How many of them failed.
    pub failures: usize,
    /// Mappings of other hosts: these can't be replaced (but can be removed).
    pub foreign: BTreeSet<(u16, bool)>,
}

static GATEWAY: Mutex<SimGateway> = Mutex::new(SimGateway {
    mappings: BTreeMap::new(),
    script: Vec::new(),
    calls: 0,
    failures: 0,
    foreign: BTreeSet::new(),
});

/// Access the simulated gateway.
pub fn sim<R>(f: impl FnOnce(&mut SimGateway) -> R) -> R {
    f(&mut GATEWAY.lock().unwrap_or_else(|err| err.into_inner()))
}

fn call_fails(gateway: &mut SimGateway) -> bool {
    let fails = gateway.script.get(gateway.calls).copied().unwrap_or(false);

    gateway.calls += 1;
    gateway.failures += fails as usize;

    fails
}

fn key(config: &UpnpConfig) -> (u16, bool) {
    (config.port, matches!(config.protocol, PortMappingProtocol::UDP))
}

impl UpnpConfig {
    fn remove_port(&self) -> Result<()> {
        sim(|gateway| {
            if call_fails(gateway) {
                return Err(Error::NoMatchingGateway);
            }

            gateway.mappings.remove(&key(self));
            gateway.foreign.remove(&key(self));

            Ok(())
        })
    }

    fn add_port(&self) -> Result<()> {
        sim(|gateway| {
            if call_fails(gateway) {
                return Err(Error::NoMatchingGateway);
            }

            if gateway.foreign.contains(&key(self)) {
                gateway.failures += 1;
                return Err(Error::NoMatchingGateway);
            }

            gateway.mappings.insert(key(self), self.duration);

            Ok(())
        })
    }
}

pub fn add_ports(
    configs: impl IntoIterator<Item = UpnpConfig>,
) -> impl Iterator<Item = Result<()>> {
    configs.into_iter().map(|config| config.add_port())
}

pub fn delete_ports(
    configs: impl IntoIterator<Item = UpnpConfig>,
) -> impl Iterator<Item = Result<()>> {
    configs.into_iter().map(|config| config.remove_port())
}
