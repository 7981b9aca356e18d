//! Renders component trees on the server with the real yew and stylist, and hydrates stylist's
//! part of the output.  Usage: vh-ssr run CASES.json OUT.json
use base64ct::{Base64, Encoding};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};

#[path = "../../core/src/ast.rs"]
#[allow(dead_code)]
mod ast;
mod tree;
use tree::*;

// ------------------------------------------------------------------ reading the output
/// (attributes of every `<i>`, payload of every provider)
fn scan(html: &str) -> (Vec<Value>, Vec<(usize, String)>) {
    let attr = |tag: &str, k: &str| -> String {
        tag.split(&format!("{}=\"", k)).nth(1).and_then(|x| x.split('"').next()).unwrap_or("").to_string()
    };
    let (mut els, mut pay) = (vec![], vec![]);
    let mut stack: Vec<Option<usize>> = vec![];
    let mut rest = html;
    while let Some(i) = rest.find('<') {
        rest = &rest[i..];
        if rest.starts_with("<!--") {
            rest = &rest[rest.find("-->").map(|i| i + 3).unwrap_or(rest.len())..];
            continue;
        }
        let end = rest.find('>').map(|i| i + 1).unwrap_or(rest.len());
        let tag = &rest[..end];
        if tag.starts_with("</") {
            if !tag.starts_with("</script") {
                stack.pop();
            }
        } else if tag.starts_with("<script") {
            let body = rest[end..].split('<').next().unwrap_or("");
            if let Some(Some(n)) = stack.last() {
                pay.push((*n, body.to_string()));
            }
        } else {
            if tag.starts_with("<i ") {
                els.push(json!({"n": attr(tag, "data-n").parse::<usize>().unwrap_or(0), "class": attr(tag, "class")}));
            }
            stack.push(if tag.starts_with("<u ") { attr(tag, "data-c").parse().ok() } else { None });
        }
        rest = &rest[end..];
    }
    (els, pay)
}

fn decode(b64: &str) -> Option<StyleData> {
    let b = Base64::decode_vec(b64).ok()?;
    let ((d, _), _): ((Option<StyleData>, Option<()>), usize) =
        bincode::serde::decode_from_slice(&b, bincode::config::standard()).ok()?;
    d
}
fn entries(d: &StyleData) -> Value {
    let v = serde_json::to_value(d).unwrap();
    v.as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let sheet: stylist::ast::Sheet = serde_json::from_value(e["key"]["ast"].clone()).unwrap();
            json!({"g": e["key"]["is_global"], "prefix": e["key"]["prefix"], "ast": ast::sheet_json(&sheet), "id": e["id"]})
        })
        .collect()
}

fn managers(case: &Value, record: bool) -> Vec<Option<StaticReader>> {
    let mut readers = vec![];
    let ms = case["mgrs"].as_array().unwrap().iter().enumerate().map(|(i, m)| {
        if i == 0 {
            readers.push(None);
            return StyleManager::default();
        }
        let b = StyleManager::builder().prefix(st(m, "prefix").to_string().into());
        if record && m["rec"] == true {
            let (w, r) = render_static();
            readers.push(Some(r));
            b.writer(w).build().unwrap()
        } else {
            readers.push(None);
            b.build().unwrap()
        }
    }).collect();
    MGRS.with(|x| *x.borrow_mut() = ms);
    GIVEN.with(|g| g.borrow_mut().clear());
    readers
}

fn server(case: &Value) -> Value {
    NODES.with(|x| *x.borrow_mut() = Rc::new(case["nodes"].as_array().unwrap().clone()));
    let readers = managers(case, true);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let set = tokio::task::LocalSet::new();
    let html = set.block_on(&rt, async { yew::LocalServerRenderer::<App>::new().render().await });
    let (els, pay) = scan(&html);
    // every scoped style is still registered, so asking for it again names the style in use
    let probes: Vec<Value> = case["nodes"].as_array().unwrap().iter().enumerate()
        .filter(|(_, x)| x["styled"] == true && x["g"] != true)
        .map(|(n, x)| {
            let s = Style::new_with_manager(from_text(x), mgr(num(x, "near"))).unwrap();
            json!({"n": n, "id": s.get_class_name(), "css": s.get_style_str()})
        })
        .collect();
    let data: Vec<Option<StyleData>> = readers.into_iter().map(|r| r.map(|r| r.read_style_data())).collect();
    let logs: Vec<Value> = data.iter().map(|d| d.as_ref().map(entries).unwrap_or(json!([]))).collect();
    let markup: Vec<String> = data.iter().map(|d| {
        let mut w = String::new();
        if let Some(d) = d.as_ref().filter(|_| case["html"] == true) {
            d.write_static_markup(&mut w).unwrap();
        }
        w
    }).collect();
    let made = MADE.with(|m| m.take());
    let media = LATE.with(|m| m.take());
    MGRS.with(|m| m.borrow_mut().clear());
    GIVEN.with(|g| g.borrow_mut().clear());
    json!({"html": if case["html"] == true { html.as_str() } else { "" }, "els": els, "pay": pay, "probes": probes, "logs": logs, "markup": markup, "made": made, "media": media})
}

/// Creates in client managers what the nodes create, in document order, loading what providers got.
fn client(case: &Value, pay: &[(usize, String)]) -> Value {
    managers(case, false);
    let nodes = case["nodes"].as_array().unwrap();
    let mut out = vec![];
    let mut hold: Vec<Box<dyn std::any::Any>> = vec![];
    for (n, x) in nodes.iter().enumerate() {
        if st(x, "kind") == "prov" {
            let Some((_, b)) = pay.iter().find(|(k, _)| *k == n) else { continue };
            let Some(d) = decode(b) else { continue };
            let m = mgr(num(x, "mgr"));
            let ok = catch_unwind(AssertUnwindSafe(|| m.load_style_data(&d))).is_ok();
            out.push(json!({"n": n, "id": if ok { "loaded" } else { "failed" }}));
        } else if x["styled"] == true {
            let m = mgr(num(x, "near"));
            if x["g"] == true {
                let s = GlobalStyle::new_with_manager(from_text(x), m).unwrap();
                out.push(json!({"n": n, "id": s.id()}));
                hold.push(Box::new(s));
            } else {
                let s = Style::new_with_manager(from_text(x), m).unwrap();
                out.push(json!({"n": n, "id": s.get_class_name()}));
                hold.push(Box::new(s));
            }
        }
    }
    MGRS.with(|m| m.borrow_mut().clear());
    GIVEN.with(|g| g.borrow_mut().clear());
    Value::Array(out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cases: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    if std::env::var("NOISY").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut out = vec![];
    for case in cases {
        let c = case.clone();
        let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || server(&c)).unwrap().join();
        let mut v = match r {
            Ok(v) => v,
            Err(_) => json!({"html": "", "els": [], "pay": [], "probes": [], "logs": [], "made": [], "media": [], "died": true}),
        };
        let pay: Vec<(usize, String)> = serde_json::from_value(v["pay"].clone()).unwrap();
        v["payloads"] = pay.iter()
            .filter(|(n, _)| case["nodes"][n]["kind"] == "prov")
            .map(|(n, b)| match decode(b) {
                Some(d) => json!({"n": n, "ok": true, "data": entries(&d)}),
                None => json!({"n": n, "ok": false, "data": []}),
            })
            .collect();
        let c = case.clone();
        v["client"] = std::thread::spawn(move || client(&c, &pay)).join().unwrap_or(json!([{"n": 0, "id": "died"}]));
        v["died"] = json!(v["died"] == true);
        out.push(v);
    }
    std::fs::write(&a[3], Value::Array(out).to_string()).unwrap();
}
