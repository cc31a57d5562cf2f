#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod capi;
#[cfg(feature = "cli")]
#[allow(dead_code)]
mod cli {
    // the command line tool, as it is
    include!("/repo/src/main.rs");
    pub fn go() -> anyhow::Result<()> {
        main()
    }
}
#[cfg(not(feature = "cli"))]
mod cli {
    pub fn go() -> anyhow::Result<()> {
        panic!("harness: the command line tool was not built in")
    }
}
mod ops;
mod shim;

use serde_json::{json, Value as J};
use shim::{lk, Plan, St};
use std::collections::HashMap;
use std::io::BufRead;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{mpsc, Arc};
use std::time::Duration;

struct Act {
    a: Arc<shim::Actor>,
    tx: mpsc::Sender<J>,
}

fn spawn_actor(name: &str) -> Act {
    let (tx, rx) = mpsc::channel::<J>();
    let (atx, arx) = mpsc::channel();
    let name = name.to_string();
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let a = shim::quiet(|| shim::register(&name, false));
            atx.send(a.clone()).unwrap();
            for op in rx {
                a.granted.store(false, SeqCst);
                let now = op["now"].as_i64().unwrap_or(0);
                a.now.store(now, SeqCst);
                shim::log(json!({"e":"call","a":a.name,"op":op["op"],"now":now}));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ops::exec(&op["op"])));
                let res = match r {
                    Ok(Ok(j)) => json!({"ok": true, "v": j}),
                    Ok(Err((k, m))) => json!({"ok": false, "err": k, "msg": m}),
                    Err(p) => {
                        let m = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        json!({"ok": false, "err": "panic", "msg": m})
                    }
                };
                shim::log(json!({"e":"ret","a":a.name,"res":res}));
                let g = lk(&shim::GM);
                *lk(&a.st) = St::Idle;
                drop(g);
                shim::CCV.notify_all();
            }
            *lk(&a.st) = St::Gone;
        })
        .unwrap();
    Act { a: arx.recv().unwrap(), tx }
}

fn plan(j: &J) -> Option<Plan> {
    if j.is_null() {
        return None;
    }
    let s = |k: &str| j[k].as_str().unwrap_or("").to_string();
    Some(Plan {
        cls: s("cls"),
        call: s("call"),
        actor: s("actor"),
        nth: j["nth"].as_i64().unwrap_or(-1),
        errno: j["errno"].as_i64().unwrap_or(5) as i32,
        short: j["short"].as_bool().unwrap_or(false),
        times: j["times"].as_i64().unwrap_or(1),
        sticky: j["sticky"].as_bool().unwrap_or(false),
        after: j["after"].as_bool().unwrap_or(false),
    })
}

fn states(v: &[(String, St)]) -> J {
    let mut m = serde_json::Map::new();
    for (n, s) in v {
        let d = match s {
            St::Idle => "idle".to_string(),
            St::Running => "running".to_string(),
            St::Gate(g) => format!("gate {}", g),
            St::Blocked => "blocked".to_string(),
            St::Gone => "gone".to_string(),
        };
        m.insert(n.clone(), json!(d));
    }
    J::Object(m)
}

fn main() {
    shim::be_controller();
    if let Ok(f) = std::env::var("PV_CLI") {
        // what the command line tool prints goes into a file
        unsafe {
            let p = libc::dup(1);
            shim::PROTO.store(p, SeqCst);
            let c = std::ffi::CString::new(f).unwrap();
            let o = libc::open(c.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o600);
            libc::dup2(o, 1);
            libc::close(o);
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if let Ok(p) = std::env::var("PV_PANIC") {
            if p == "1" {
                eprintln!("{i}");
            }
        }
        shim::log(json!({"e":"panic","a":shim::my_name(),"msg":i.to_string()}));
    }));
    let settle_ms = 20_000;
    let mut acts: HashMap<String, Act> = HashMap::new();
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            break;
        }
        let c: J = match serde_json::from_str(&line) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("bad command {e}: {line}");
                std::process::exit(3);
            }
        };
        let mut out = json!({});
        match c["c"].as_str().unwrap_or("") {
            "init" => {
                shim::set_base(c["dir"].as_str().unwrap());
                shim::CLONE.store(c["clone"].as_bool().unwrap_or(false), SeqCst);
                shim::GATING.store(c["gate"].as_bool().unwrap_or(true), SeqCst);
                shim::MGATE.store(c["mgate"].as_bool().unwrap_or(false), SeqCst);
                shim::SGATE.store(c["sgate"].as_bool().unwrap_or(false), SeqCst);
                shim::RECORD_CALLS.store(c["calls"].as_bool().unwrap_or(false), SeqCst);
                shim::ACTIVE.store(true, SeqCst);
            }
            "gating" => {
                shim::GATING.store(c["on"].as_bool().unwrap(), SeqCst);
            }
            "fault" => {
                out["n"] = json!(shim::set_fault(plan(&c["plan"])));
                out["fired"] = json!(shim::FIRED.swap(0, SeqCst));
            }
            "crash" => {
                out["n"] = json!(shim::set_crash(plan(&c["plan"])));
            }
            "calls" => {
                shim::RECORD_CALLS.store(c["on"].as_bool().unwrap(), SeqCst);
                out["calls"] = json!(shim::take_calls());
            }
            "op" => {
                let name = c["a"].as_str().unwrap();
                let act = acts.entry(name.to_string()).or_insert_with(|| spawn_actor(name));
                let free = c["run"] == "end";
                act.a.free.store(free, SeqCst);
                {
                    let _g = lk(&shim::GM);
                    *lk(&act.a.st) = St::Running;
                    act.a.granted.store(true, SeqCst);
                }
                act.tx.send(json!({"op": c["op"], "now": c["now"]})).unwrap();
            }
            "step" => {
                let name = c["a"].as_str().unwrap();
                let a = lk(&shim::ACTORS).iter().find(|a| a.name == name).cloned();
                if let Some(a) = a {
                    a.free.store(c["run"] == "end", SeqCst);
                    let at_gate = matches!(*lk(&a.st), St::Gate(_));
                    if at_gate {
                        shim::grant(&a);
                    }
                }
            }
            "free" => {
                // let an actor run through all gates from now on
                let name = c["a"].as_str().unwrap();
                let a = lk(&shim::ACTORS).iter().find(|a| a.name == name).cloned();
                if let Some(a) = a {
                    a.free.store(true, SeqCst);
                    if matches!(*lk(&a.st), St::Gate(_)) {
                        shim::grant(&a);
                    }
                }
            }
            "status" => {}
            "wait" => {
                std::thread::sleep(Duration::from_millis(c["ms"].as_u64().unwrap()));
            }
            "pdrain" => {
                // run all reclaimers until none of them is at a gate
                let maxn = c["max"].as_u64().unwrap_or(2000);
                let only = c["a"].as_str().unwrap_or("").to_string();
                let sleeps = c["sleeps"].as_u64().unwrap_or(0);
                // whoever has waited longest goes first; who sleeps, when nobody else can go
                let mut last: HashMap<String, (u64, u64)> = HashMap::new();
                for n in 1..=maxn {
                    if shim::settle(Duration::from_millis(settle_ms)).is_err() {
                        break;
                    }
                    let a = lk(&shim::ACTORS)
                        .iter()
                        .filter(|a| a.puncher && (only.is_empty() || a.name == only))
                        .filter_map(|a| {
                            let (at, slept) = last.get(&a.name).copied().unwrap_or((0, 0));
                            match &*lk(&a.st) {
                                St::Gate(g) if g == "sleep" => (slept < sleeps).then(|| (true, at, a.clone())),
                                St::Gate(_) => Some((false, at, a.clone())),
                                _ => None,
                            }
                        })
                        .min_by_key(|x| (x.0, x.1));
                    match a {
                        Some((sleeping, _, a)) => {
                            let e = last.entry(a.name.clone()).or_insert((0, 0));
                            e.0 = n;
                            e.1 += sleeping as u64;
                            shim::grant(&a)
                        }
                        None => break,
                    }
                }
            }
            "exit" => std::process::exit(0),
            x => {
                eprintln!("unknown command {x}");
                std::process::exit(3);
            }
        }
        if c["nosettle"].as_bool() != Some(true) {
            match shim::settle(Duration::from_millis(settle_ms)) {
                Ok(s) => out["st"] = states(&s),
                Err(s) => {
                    out["st"] = states(&s);
                    out["timeout"] = json!(true);
                }
            }
        }
        out["ev"] = json!(shim::take_log());
        let _o = lk(&shim::OUT);
        let mut s = out.to_string();
        s.push('\n');
        if !shim::say(s.as_bytes()) {
            break;
        }
    }
    std::process::exit(0);
}
