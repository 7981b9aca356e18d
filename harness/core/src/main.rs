//! vh-core: a thin executor. Reads cases (JSON), runs them on the real crate through its public
//! API, writes what was observed (JSON). It contains no expectations: TLC judges the output.
mod ast;
mod reg;

use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use stylist::ast::{Sheet, ToStyleStr};
use stylist::{GlobalStyle, Style};

/// JSON with every non-ASCII character escaped.
fn ascii(v: &Value) -> String {
    let s = serde_json::to_string(v).unwrap();
    let mut out = String::with_capacity(s.len());
    let mut buf = [0u16; 2];
    for c in s.chars() {
        if c.is_ascii() {
            out.push(c)
        } else {
            for u in c.encode_utf16(&mut buf) {
                out.push_str(&format!("\\u{:04x}", u));
            }
        }
    }
    out
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|m| m.to_string()))
            .unwrap_or_else(|| "panic".to_string())
    })
}

fn parse_obs(text: &str) -> Value {
    match guarded(|| text.parse::<Sheet>()) {
        Ok(Ok(s)) => json!({"res": "ok", "ast": ast::sheet_json(&s)}),
        Ok(Err(_)) => json!({"res": "err", "ast": []}),
        Err(_) => json!({"res": "panic", "ast": []}),
    }
}

fn hash_of(s: &Sheet) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn cmd_parse(input: &Value) -> Value {
    // Result of every text, in order.
    Value::Array(
        input
            .as_array()
            .unwrap()
            .iter()
            .map(|c| parse_obs(c.as_str().unwrap()))
            .collect(),
    )
}

/// Create a style from a text, scoped and global, through the debug re-parse; report the CSS
/// and what parsing that CSS again and rendering it globally gives.
fn closure_obs(text: &str, trees: bool) -> Value {
    let mut p = parse_obs(text);
    if !trees {
        p = p["res"].take();
    }
    let scoped = guarded(|| {
        Style::new(text.to_string()).map(|s| {
            let r = (s.get_style_str().to_string(), s.get_class_name().to_string());
            s.unregister();
            r
        })
    });
    let global = guarded(|| {
        GlobalStyle::new(text.to_string()).map(|s| {
            let r = (s.get_style_str().to_string(), s.id().to_string());
            s.unregister();
            r
        })
    });
    let tree = |s: &Sheet| if trees { ast::sheet_json(s) } else { json!([]) };
    let f = |r: Result<stylist::Result<(String, String)>, String>| match r {
        Ok(Ok((css, id))) => {
            let again = match guarded(|| css.parse::<Sheet>()) {
                Ok(Ok(s)) => json!({"res": "ok", "ast": tree(&s), "css": s.to_style_str(None)}),
                Ok(Err(_)) => json!({"res": "err", "ast": [], "css": ""}),
                Err(_) => json!({"res": "panic", "ast": [], "css": ""}),
            };
            json!({"res": "ok", "css": css, "id": id, "again": again})
        }
        Ok(Err(_)) => json!({"res": "err", "css": "", "id": "", "again": {"res": "none", "ast": [], "css": ""}}),
        Err(_) => json!({"res": "panic", "css": "", "id": "", "again": {"res": "none", "ast": [], "css": ""}}),
    };
    json!({"parse": p, "scoped": f(scoped), "global": f(global)})
}

fn cmd_closure(input: &Value) -> Value {
    Value::Array(
        input
            .as_array()
            .unwrap()
            .iter()
            .map(|c| closure_obs(c.as_str().unwrap(), true))
            .collect(),
    )
}

/// The same of long texts, without the trees.
fn cmd_long(input: &Value) -> Value {
    Value::Array(
        input
            .as_array()
            .unwrap()
            .iter()
            .map(|c| {
                let s = |k: &str| c[k].as_str().unwrap();
                let n = c["n"].as_u64().unwrap() as usize;
                closure_obs(&format!("{}{}{}", s("pre"), s("unit").repeat(n), s("post")), false)
            })
            .collect(),
    )
}

fn how(c: &Value) -> ast::How {
    ast::How {
        borrow: c["borrow"].as_u64().unwrap_or(0),
        cut: c["cut"].as_u64().unwrap_or(0) as usize,
    }
}

/// Render trees built node by node through the public AST types.
fn cmd_render(input: &Value) -> Value {
    Value::Array(
        input
            .as_array()
            .unwrap()
            .iter()
            .map(|c| {
                let sheet = ast::Builder::new(how(c)).sheet(&c["ast"]);
                let class = c["class"].as_str().unwrap();
                let cls = if class.is_empty() { None } else { Some(class) };
                let r = guarded(|| {
                    let a = sheet.to_style_str(cls);
                    let b = sheet.to_style_str(cls);
                    (a.clone(), a == b)
                });
                match r {
                    Ok((css, same)) => json!({"res": "ok", "css": css, "same": same}),
                    Err(_) => json!({"res": "panic", "css": "", "same": true}),
                }
            })
            .collect(),
    )
}

/// Pairs of trees: equality, hash equality, serde round trips, clones.
fn cmd_value(input: &Value) -> Value {
    Value::Array(
        input
            .as_array()
            .unwrap()
            .iter()
            .map(|c| {
                let r = guarded(|| {
                    let a = ast::Builder::new(how(&c["a"])).sheet(&c["a"]["ast"]);
                    let b = ast::Builder::new(how(&c["b"])).sheet(&c["b"]["ast"]);
                    let json_a = serde_json::to_string(&a).unwrap();
                    let back: Sheet = serde_json::from_str(&json_a).unwrap();
                    let bin = bincode::serialize(&a).unwrap();
                    let back2: Sheet = bincode::deserialize(&bin).unwrap();
                    let cl = a.clone();
                    json!({"res": "ok", "eq": a == b, "qe": b == a, "hasheq": hash_of(&a) == hash_of(&b),
                        "json": {"eq": back == a, "hash": hash_of(&back) == hash_of(&a), "ast": ast::sheet_json(&back),
                                 "css": back.to_style_str(Some("k"))},
                        "bin": {"eq": back2 == a, "hash": hash_of(&back2) == hash_of(&a), "ast": ast::sheet_json(&back2),
                                 "css": back2.to_style_str(Some("k"))},
                        "clone": {"eq": cl == a, "hash": hash_of(&cl) == hash_of(&a), "ast": ast::sheet_json(&cl),
                                 "css": cl.to_style_str(Some("k"))}})
                });
                r.unwrap_or_else(|_| json!({"res": "panic"}))
            })
            .collect(),
    )
}

/// Threads parse the given sequences of texts concurrently; every result is logged per thread.
fn cmd_threads(input: &Value) -> Value {
    let seqs: Vec<Vec<String>> = input
        .as_array()
        .unwrap()
        .iter()
        .map(|t| t.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .collect();
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(seqs.len()));
    let hs: Vec<_> = seqs
        .into_iter()
        .map(|seq| {
            let b = barrier.clone();
            std::thread::spawn(move || {
                b.wait();
                seq.iter().map(|t| parse_obs(t)).collect::<Vec<_>>()
            })
        })
        .collect();
    Value::Array(
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(v) => Value::Array(v),
                Err(_) => json!("panic"),
            })
            .collect(),
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let input: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let out = match args[1].as_str() {
        "parse" => cmd_parse(&input),
        "closure" => cmd_closure(&input),
        "long" => cmd_long(&input),
        "render" => cmd_render(&input),
        "value" => cmd_value(&input),
        "threads" => cmd_threads(&input),
        "reg" => reg::cmd(&input),
        "regthreads" => reg::cmd_threads(&input),
        "regtight" => reg::cmd_tight(&input),
        m => panic!("unknown command {m}"),
    };
    std::fs::write(&args[3], ascii(&out)).unwrap();
}
