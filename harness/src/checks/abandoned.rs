//! C40: requests whose callers don't wait for the end.

use std::collections::BTreeSet;
use std::future::Future;
use std::pin::pin;
use std::task::Poll;

use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gens::*;
use crate::net::{Holdings, Net, Reply, TestServer};
use crate::shim;
use crate::wire::*;
use crate::{ensure, fail};

use super::server::*;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Act40 {
    Whole(ReqSpec),
    /// Given up after so many steps; then the second one is made, maybe at once.
    Abandoned { first: ReqSpec, steps: u8, second: ReqSpec, hasty: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C40 {
    acts: Vec<Act40>,
}

fn c40_gen(src: &mut Src) -> C40 {
    let never = (0, 1);
    let n = 2 + src.upto(8);

    let acts = (0..n).map(|i| {
        let r = request(src, i as u64 * 2, never);

        if src.chance(2, 5) {
            return Act40::Whole(r);
        }

        // The same again, or something else
        let second = if src.chance(1, 3) { r.clone() } else { request(src, i as u64 * 2 + 1, never) };

        Act40::Abandoned { first: r, steps: src.weighted(&[1, 5, 3, 2, 1, 1, 1, 1]) as u8, second, hasty: src.chance(1, 3) }
    }).collect();

    C40 { acts }
}

/// Poll the future so many times at most.
async fn upto<T>(steps: u8, future: impl Future<Output = T>) -> Option<T> {
    let mut future = pin!(future);
    let mut left = steps;

    std::future::poll_fn(move |cx| {
        if left == 0 {
            return Poll::Ready(None);
        }

        left -= 1;

        match future.as_mut().poll(cx) {
            Poll::Ready(value) => Poll::Ready(Some(value)),
            Poll::Pending if left == 0 => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }).await
}

fn judge(reply: &Reply, r: &ReqSpec, states: &[Holdings], lookups: bool) -> Verdict {
    let (success, json) = judge_reply(reply, &show(r), SERVER, r.seed)?;

    if !success {
        ensure!(states.iter().any(|state| outdated(state, r)), "{} is answered with an error: {json}", show(r));
        return Ok(());
    }

    if matches!(r.body, Body::Lookup { .. }) && !lookups {
        return Ok(());
    }

    let mut last = None;

    for state in states {
        match judge_content(&json, r, state) {
            Ok(()) => return Ok(()),
            Err(err) => last = Some(err),
        }
    }

    last.map_or(Ok(()), Err)
}

/// Each record and queue is as one of the states has it.
fn judge_parts(actual: &Holdings, states: &[Holdings], what: &str) -> Verdict {
    macro_rules! part {
        ($field:ident, $name:literal) => {
            let keys = actual.$field.keys().chain(states.iter().flat_map(|s| s.$field.keys())).collect::<BTreeSet<_>>();

            for key in keys {
                ensure!(
                    states.iter().any(|s| s.$field.get(key) == actual.$field.get(key)),
                    "after {what} {} {key:?} is {}, which is neither what it was nor what it should become", $name, short(&actual.$field.get(key))
                );
            }
        };
    }

    part!(local, "the connected client");
    part!(remote, "the announced client");
    part!(servers, "the server");
    part!(inbox, "the queue");

    Ok(())
}

fn c40_run(case: &C40, cx: &mut Cx) -> Verdict {
    let server = TestServer::new(cx, SERVER, "127.0.0.1:8000", true, Net::new(1000));
    let mut state = Holdings::default();

    for act in &case.acts {
        cx.exec();

        let (first, steps, second, hasty) = match act {
            Act40::Whole(r) => {
                let reply = server.post(cx, path(&r.body), request_json(r).to_string());
                judge(&reply, r, &[state.clone()], true)?;
                apply(&mut state, r);
                continue;
            }

            Act40::Abandoned { first, steps, second, hasty } => (first, *steps, second, *hasty),
        };

        let call = |r: &ReqSpec| {
            let (routes, path, body) = (server.routes.clone(), path(&r.body), request_json(r).to_string());
            async move { routes.call("POST", path, Some(body)).await }
        };

        // What has been started in the background comes to its end with the runtime
        let (rt, ctl) = make_runtime(cx.ctl.shared.clone());
        let (begun, after) = (call(first), hasty.then(|| call(second)));

        shim::attach(Some(ctl.clone()));

        let result = guarded(|| rt.block_on(async {
            let begun = upto(steps, begun).await;

            match after {
                Some(call) => (begun, Some(call.await)),
                None => (begun, None),
            }
        }));

        shim::attach(None);
        drop(rt);

        let (begun, ended) = result?;
        let finished = begun.is_some();

        if let Some(reply) = &begun {
            judge(reply, first, &[state.clone()], true)?;
        }

        let mut done = state.clone();
        apply(&mut done, first);

        let what = format!("{} given up after {steps} steps", show(first));
        let mut states = if finished { vec![done.clone()] } else { vec![state.clone(), done.clone()] };

        if let Some(reply) = &ended {
            let lookups = finished || !matches!(first.body, Body::Disconnect);
            judge(reply, second, &states, lookups).map_err(|Fail(text)| Fail(format!("{} right after {what}: {text}", show(second))))?;

            for state in &mut states {
                apply(state, second);
            }

            // The first one's effect may come later
            if !finished {
                let mut other = state.clone();
                apply(&mut other, second);
                apply(&mut other, first);
                states.push(other);
            }
        }

        let actual = server.holdings(cx, &everyone(), &channels())?;
        judge_parts(&actual, &states, &what)?;

        cx.label_if(!finished && actual == state && done != state, "given up before its effect");
        cx.label_if(!finished && actual == done && done != state, "given up after its effect");
        cx.label_if(!finished && hasty, "another one right after");

        if !finished && done != state {
            cx.nontrivial();
        }

        state = actual;

        if !hasty {
            let reply = server.post(cx, path(&second.body), request_json(second).to_string());
            judge(&reply, second, &[state.clone()], true).map_err(|Fail(text)| Fail(format!("{} after {what}: {text}", show(second))))?;
            apply(&mut state, second);
        }
    }

    let actual = server.holdings(cx, &everyone(), &channels())?;

    if actual != state {
        judge_parts(&actual, &[state], "all the requests")?;
        fail!("after all the requests something else is held");
    }

    server.close(cx);

    Ok(())
}

pub fn c40() -> Check {
    Def {
        id: "C40",
        level: "exploration",
        rule: "history with a request that changes something and is given up before its reply",
        assumptions: &[
            "a request is given up by dropping it between two of its steps, as the web server does when a client goes away",
            "work started in the background is left to end",
            "messages of a poll which is given up may be lost with its reply",
        ],
        quick: 4_000,
        thorough: 150_000,
        shards: 8,
        gen: c40_gen,
        run: c40_run,
    }.build()
}
