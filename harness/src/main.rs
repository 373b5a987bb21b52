#![allow(invalid_runtime_symbol_definitions)]
mod binary;
mod crash;
mod dict;
mod engine;
mod shim;
mod gens;
mod refimpl;
mod wire;
mod net;
mod live;
mod listener;
mod checks;

use std::io::{Read, Write};
use std::path::{Path, PathBuf};

use serde_json::{json, Value as Json};

use engine::{Fail, RunConfig};

const NOBODY: u32 = 65534;

struct Args {
    command: String,
    target: String,
    root: PathBuf,
    thorough: bool,
    seed: u64,
    cases: Option<u64>,
    shards: Option<usize>,
}

fn parse_args() -> Args {
    let mut args = std::env::args().skip(1);

    let mut out = Args {
        command: args.next().unwrap_or_default(),
        target: String::new(),
        root: PathBuf::from("/verif"),
        thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64,
        cases: std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()),
        shards: std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()),
    };

    while let Some(arg) = args.next() {
        match arg.as_str() {
            "--root" => out.root = PathBuf::from(args.next().unwrap_or_default()),
            "--thorough" => out.thorough = true,
            _ => out.target = arg,
        }
    }

    out
}

/// Scratch directory; removed when dropped.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> std::io::Result<Self> {
        let base = if Path::new("/dev/shm").is_dir() && std::env::var_os("VERIF_NO_SHM").is_none() {
            "/dev/shm"
        } else {
            "/tmp"
        };

        for base in [base, "/tmp"] {
            let path = Path::new(base).join(format!("hyperborea-verif-{}-{}", std::process::id(), hex_time()));

            if std::fs::create_dir(&path).is_ok() {
                let text = path.to_str().unwrap_or_default().to_string() + "\0";
                unsafe { libc::chown(text.as_ptr().cast(), NOBODY, NOBODY); }

                return Ok(Self(path));
            }
        }

        Err(std::io::Error::other("can't create scratch directory"))
    }
}

fn hex_time() -> String {
    let nanos = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_nanos())
        .unwrap_or_default();

    format!("{nanos:x}")
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn drop_privileges() {
    unsafe {
        if libc::getuid() == 0 {
            libc::setgroups(0, std::ptr::null());
            libc::setgid(NOBODY);
            libc::setuid(NOBODY);
        }
    }
}

/// Run the job in a child process without privileges, which may change its scratch only.
/// Returns child's answer or exit code.
fn contained(job: impl FnOnce(&Path) -> Json, limit_s: u64) -> Result<Json, i32> {
    let scratch = match Scratch::new() {
        Ok(scratch) => scratch,
        Err(err) => {
            eprintln!("scratch: {err}");
            return Err(2);
        }
    };

    let mut fds = [0; 2];

    if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
        eprintln!("pipe failed");
        return Err(2);
    }

    let pid = unsafe { libc::fork() };

    if pid < 0 {
        eprintln!("fork failed");
        return Err(2);
    }

    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
        }

        drop_privileges();
        shim::contain(&scratch.0);
        engine::install_panic_hook();

        crash::install(fds[1]);
        listener::install();
        crash::answer(&job(&scratch.0).to_string());

        unsafe { libc::_exit(0) };
    }

    unsafe { libc::close(fds[1]); }

    // A stuck child is ended by its own watchdog; this is the last resort
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit_s));
        unsafe { libc::kill(pid, libc::SIGKILL); }
    });

    let mut text = String::new();
    let mut pipe = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]) };
    let read = pipe.read_to_string(&mut text);

    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0); }

    drop(scratch);

    if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 && read.is_ok() {
        if let Ok(json) = serde_json::from_str(&text) {
            return Ok(json);
        }
    }

    if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) != 0 {
        return Err(libc::WEXITSTATUS(status));
    }

    eprintln!("child ended abnormally (status {status})");

    Err(2)
}

/// Values drawn by two processes which start from the same state (for C14).
fn draw_in_children(id: &str) {
    if id != "C14" {
        return;
    }

    let lists = (0..2).filter_map(|_| contained(|_| json!(checks::crypto::draw_for_parent()), 60).ok())
        .map(|list| list.as_array().into_iter().flatten().filter_map(Json::as_u64).collect::<Vec<_>>())
        .collect::<Vec<_>>();

    if lists.len() == 2 {
        let _ = checks::crypto::FORKED.set(lists);
    }
}

fn main() {
    let args = parse_args();
    let checks = checks::all();

    // No proxies; and making an HTTP client shouldn't load all the certificates
    for name in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] {
        std::env::remove_var(name);
    }

    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");

    let source = Path::new("/repo/src");

    dict::load(source);

    let code = match args.command.as_str() {
        "literals" => {
            print!("{}", dict::listed(source));
            0
        }

        "list" => {
            for check in &checks {
                println!("{}", check.id);
            }

            0
        }

        "run" => {
            let Some(check) = checks.iter().find(|c| c.id == args.target) else {
                eprintln!("unknown check {:?}", args.target);
                std::process::exit(2);
            };

            draw_in_children(&args.target);

            let limit = if args.thorough { 6 * 3600 } else { 840 };

            let answer = contained(|scratch| {
                let config = RunConfig {
                    seed: args.seed,
                    thorough: args.thorough,
                    scratch: scratch.to_path_buf(),
                    cases: args.cases,
                    shards: args.shards,
                };

                match engine::run(check, &config) {
                    Ok(outcome) => json!({ "evidence": outcome.evidence, "failure": outcome.failure }),
                    Err(err) => json!({ "error": err }),
                }
            }, limit);

            match answer {
                Ok(answer) if !answer["crash"].is_null() => crashed(&args, check, &answer["crash"]),
                Ok(answer) => finish(&args, check.id, answer),
                Err(code) => code,
            }
        }

        "replay" => {
            let text = std::fs::read_to_string(&args.target).unwrap_or_default();
            let file = serde_json::from_str::<Json>(&text).unwrap_or(Json::Null);
            let id = file["property"].as_str().unwrap_or_default().to_string();

            draw_in_children(&id);

            let Some(check) = checks.iter().find(|c| c.id == id) else {
                eprintln!("not a replay file: {:?}", args.target);
                std::process::exit(2);
            };

            let answer = again(&args, check, &file);

            match answer {
                Ok(answer) if answer["held"] == json!(true) => {
                    println!("property {id} held on {}", args.target);
                    0
                }
                Ok(answer) if answer["held"] == json!(false) => {
                    println!("{}", answer["message"].as_str().unwrap_or_default());
                    println!("VIOLATION property={id} replay={}", args.target);
                    1
                }
                Ok(answer) if !answer["crash"].is_null() => {
                    println!("{}", answer["crash"]["message"].as_str().unwrap_or_default());
                    println!("VIOLATION property={id} replay={}", args.target);
                    1
                }
                Ok(answer) => {
                    eprintln!("error: {answer}");
                    2
                }
                Err(code) => code,
            }
        }

        _ => {
            eprintln!("usage: harness list | run <id> [--thorough] [--root DIR] | replay <file>");
            2
        }
    };

    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

/// Run a saved case in a child.
fn again(args: &Args, check: &engine::Check, file: &Json) -> Result<Json, i32> {
    contained(|scratch| {
        let config = RunConfig {
            seed: args.seed,
            thorough: args.thorough,
            scratch: scratch.to_path_buf(),
            cases: None,
            shards: None,
        };

        match engine::replay(check, &config, file, 20) {
            Ok(Ok(())) => json!({ "held": true }),
            Ok(Err(Fail(message))) => json!({ "held": false, "message": message }),
            Err(err) => json!({ "error": err }),
        }
    }, 840)
}

/// A case has ended the process or hung: so it should do again.
fn crashed(args: &Args, check: &engine::Check, crash: &Json) -> i32 {
    let failure = json!({
        "property": check.id,
        "message": crash["message"],
        "case": crash["case"],
        "seed": args.seed
    });

    match again(args, check, &failure) {
        Ok(answer) if !answer["crash"].is_null() || answer["held"] == json!(false) => finish(args, check.id, json!({
            "evidence": {
                "property": check.id,
                "tier": if args.thorough { "thorough" } else { "quick" },
                "seed": args.seed,
                "level": check.level,
                "coverage": {
                    "evaluations": 1,
                    "distinct_nontrivial": 1,
                    "rule": check.rule,
                    "samples": [{ "classes": ["ends the process"], "case": crash["case"] }]
                },
                "assumptions": check.assumptions,
                "wall_s": 0.0,
                "violations": 1
            },
            "failure": failure
        })),

        Ok(_) => {
            eprintln!("{}: {} - but not when it's run again", check.id, crash["message"]);
            3
        }

        Err(code) => code,
    }
}

fn finish(args: &Args, id: &str, answer: Json) -> i32 {
    if let Some(error) = answer["error"].as_str() {
        eprintln!("check {id} couldn't run: {error}");
        return 2;
    }

    let evidence_dir = args.root.join("evidence");
    let _ = std::fs::create_dir_all(&evidence_dir);

    if let Err(err) = std::fs::write(evidence_dir.join(format!("{id}.json")), serde_json::to_string_pretty(&answer["evidence"]).unwrap_or_default()) {
        eprintln!("can't write evidence: {err}");
        return 2;
    }

    let coverage = &answer["evidence"]["coverage"];

    println!(
        "{id}: {} cases, {} distinct non-trivial, {:.1} s",
        coverage["evaluations"], coverage["distinct_nontrivial"],
        answer["evidence"]["wall_s"].as_f64().unwrap_or_default()
    );

    if answer["failure"].is_null() {
        return 0;
    }

    let replays = args.root.join("replays");
    let _ = std::fs::create_dir_all(&replays);

    let path = replays.join(format!("{id}-{:016x}.json", engine::hash_str(&answer["failure"]["case"].to_string())));

    if let Err(err) = std::fs::write(&path, serde_json::to_string_pretty(&answer["failure"]).unwrap_or_default()) {
        eprintln!("can't write replay: {err}");
        return 2;
    }

    let case = answer["failure"]["case"].to_string();

    println!("failure: {}", answer["failure"]["message"].as_str().unwrap_or_default());
    println!("minimal case: {}", if case.len() > 4000 { "(see the replay file)" } else { &case });
    println!("VIOLATION property={id} replay={}", path.display());

    1
}
