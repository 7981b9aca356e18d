//! Runs stylist's browser side, and yew on top of it, in an in-memory browser.
//! Usage: vh-dom (dom|yew|media) CASES.json OUT.json; every case runs in a process of its own.
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[path = "../../core/src/ast.rs"]
#[allow(dead_code)]
mod ast;
mod app;
mod browser;
mod dom;
#[path = "../../ssr/src/tree.rs"]
#[allow(dead_code)]
mod tree;

pub fn s<'a>(e: &'a Value, k: &str) -> &'a str {
    e[k].as_str().unwrap_or_else(|| driver(&format!("missing {k} in {e}")))
}
pub fn driver(m: &str) -> ! {
    eprintln!("driver error: {m}");
    unsafe { libc::_exit(3) }
}

/// Runs `f`; a panic is an error with its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|m| m.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match a[1].as_str() {
        "dom" => dom::run as fn(&Value) -> Value,
        "app" => app::run,
        m => driver(&format!("unknown command {m}")),
    };
    let cases: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    if std::env::var("NOISY").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let file = |i: usize| format!("{}.{i}", a[3]);
    let mut out = vec![Value::Null; cases.len()];
    let mut running: Vec<(i32, usize)> = vec![];
    let mut next = 0;
    while next < cases.len() || !running.is_empty() {
        while next < cases.len() && running.len() < 8 {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe { libc::alarm(60) };
                let v = guarded(|| f(&cases[next])).unwrap_or_else(|m| json!({"died": true, "why": m}));
                std::fs::write(file(next), v.to_string()).unwrap();
                unsafe { libc::_exit(0) }
            }
            if pid < 0 {
                driver("fork");
            }
            running.push((pid, next));
            next += 1;
        }
        let mut status = 0;
        let pid = unsafe { libc::waitpid(-1, &mut status, 0) };
        let Some(k) = running.iter().position(|(p, _)| *p == pid) else { driver("wait") };
        let (_, i) = running.swap_remove(k);
        if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 3 {
            unsafe { libc::_exit(3) }
        }
        out[i] = std::fs::read_to_string(file(i))
            .ok()
            .filter(|_| status == 0)
            .and_then(|t| serde_json::from_str(&t).ok())
            .unwrap_or_else(|| json!({"died": true, "why": format!("status {status}")}));
        let _ = std::fs::remove_file(file(i));
    }
    std::fs::write(&a[3], Value::Array(out).to_string()).unwrap();
}
