//! C30: port forwarding at a simulated gateway.

use std::collections::BTreeMap;
use std::time::Duration;

use serde::{Deserialize, Serialize};

use easy_upnp::sim;
use hyperborealib::port_forward::{PortForwarder, Protocol, UpnpPortForwarder};

use crate::engine::*;
use crate::gens::num;
use crate::{ensure, fail};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Call {
    Open { port: u16, protocol: u8, secs: u64, nanos: u32 },
    Close { port: u16, protocol: u8 },
    Discard,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C30 {
    /// Forwards of others.
    foreign: Vec<(u16, bool, u32)>,
    /// Calls, and which of the gateway calls each makes fail.
    calls: Vec<(Call, Vec<bool>)>,
}

const PROTOCOLS: [Protocol; 3] = [Protocol::TCP, Protocol::UDP, Protocol::Both];

/// Does it concern UDP (true), TCP (false)?
fn parts(protocol: u8) -> &'static [bool] {
    [&[false][..], &[true], &[false, true]][protocol as usize % 3]
}

fn c30_gen(src: &mut Src) -> C30 {
    const PORTS: [u16; 5] = [8001, 8002, 80, 0, 65535];
    let failing = src.below(4);

    let calls = src.vec(1, 16, |src| {
        let port = PORTS[src.weighted(&[6, 4, 2, 1, 1])];
        let protocol = src.below(3) as u8;

        let call = match src.weighted(&[6, 5, 1]) {
            0 => Call::Open { port, protocol, secs: num(src), nanos: src.below(2) as u32 * 999_999_999 },
            1 => Call::Close { port, protocol },
            _ => Call::Discard,
        };

        let script = if failing > 0 { src.vec(0, 4, |src| src.chance(failing, 6)) } else { vec![] };

        (call, script)
    });

    C30 { foreign: src.vec(0, 2, |src| (if src.chance(1, 3) { PORTS[src.usize(3)] } else { 9000 + src.below(3) as u16 }, src.bool(), src.below(100) as u32)), calls }
}

fn c30_run(case: &C30, cx: &mut Cx) -> Verdict {
    let foreign = case.foreign.iter().map(|(port, udp, lease)| ((*port, *udp), *lease)).collect::<BTreeMap<_, _>>();

    sim(|gateway| *gateway = Default::default());
    sim(|gateway| {
        gateway.mappings = foreign.clone();
        gateway.foreign = foreign.keys().copied().collect();
    });

    let forwarder = UpnpPortForwarder::new();
    let mut model = BTreeMap::<(u16, bool), u32>::new();
    let (mut failures, mut both, mut leases, mut occupied) = (0, false, false, false);

    // Withdraw everything in the end, and once more
    let ending = [(Call::Discard, vec![]), (Call::Discard, vec![])];

    for (i, (call, script)) in case.calls.iter().chain(&ending).enumerate() {
        sim(|gateway| {
            gateway.calls = 0;
            gateway.failures = 0;
            gateway.script = script.clone();
        });

        cx.exec();

        let result = cx.block_on(async {
            match call {
                Call::Open { port, protocol, secs, nanos } => forwarder.open(*port, PROTOCOLS[*protocol as usize % 3], Duration::new(*secs, *nanos)).await,
                Call::Close { port, protocol } => forwarder.close(*port, PROTOCOLS[*protocol as usize % 3]).await,
                Call::Discard => forwarder.discard().await,
            }
        });

        let failed = sim(|gateway| gateway.failures);
        let actual = sim(|gateway| gateway.mappings.clone());
        let done = matches!(result, Ok(true));
        let what = format!("call {i} {call:?} ({failed} gateway failures)");

        ensure!(done || failed > 0, "{what} gives {} though nothing failed", short(&result));

        failures += failed;

        // What each concerned forward becomes
        let targets = match call {
            Call::Open { port, protocol, secs, .. } => {
                both |= *protocol % 3 == 2;
                leases |= parts(*protocol).iter().any(|udp| model.contains_key(&(*port, *udp)));

                parts(*protocol).iter().map(|udp| ((*port, *udp), Some((*secs).min(u32::MAX as u64) as u32))).collect::<Vec<_>>()
            }

            Call::Close { port, protocol } => parts(*protocol).iter().map(|udp| ((*port, *udp), None)).collect(),
            Call::Discard => model.keys().map(|key| (*key, None)).collect(),
        };

        for (key, target) in targets {
            let before = model.get(&key).copied();

            // Somebody else's forward stays whatever we do
            if let Some(lease) = foreign.get(&key) {
                ensure!(actual.get(&key) == Some(lease), "{what} changes somebody else's forward {key:?}");
                ensure!(!done || target.is_none(), "{what} succeeds though somebody else has the forward {key:?}");
                occupied = true;
                continue;
            }

            let now = actual.get(&key).copied();

            if done {
                ensure!(now == target, "{what} succeeds, but the forward {key:?} has the lease {now:?} instead of {target:?}");
            } else {
                // A failed call has taken effect or hasn't
                ensure!(now == target || now == before, "{what} fails and leaves the forward {key:?} with the lease {now:?}, before: {before:?}");
            }

            match now {
                Some(lease) => model.insert(key, lease),
                None => model.remove(&key),
            };
        }

        // Nothing else has changed
        let expected = model.iter().chain(&foreign).map(|(key, lease)| (*key, *lease)).collect::<BTreeMap<_, _>>();

        if actual != expected {
            fail!("after {what} the gateway holds {}, expected: {}", short(&actual), short(&expected));
        }
    }

    cx.label_if(failures > 0, "gateway failures");
    cx.label_if(both, "both protocols");
    cx.label_if(leases, "lease renewed");
    cx.label_if(!foreign.is_empty(), "forwards of others");
    cx.label_if(occupied, "occupied by others");

    if failures > 0 && case.calls.len() > 3 {
        cx.nontrivial();
    }

    Ok(())
}

pub fn c30() -> Check {
    Def {
        id: "C30",
        level: "exploration",
        rule: "history of at least 4 calls with failures of the gateway",
        assumptions: &["the gateway is a simulation in the place of the easy-upnp crate: a call either fails without an effect or takes effect; it refuses to replace another host's forward but would delete it", "a failed call may have taken effect on some of its forwards"],
        quick: 150_000,
        thorough: 10_000_000,
        shards: 1,
        gen: c30_gen,
        run: c30_run,
    }.build()
}
