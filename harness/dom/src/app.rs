//! A yew application in the in-memory browser: mounted or hydrated, edited, and taken down.
use crate::browser::{element, insert, parse_html, Node};
use crate::dom::{content, web_node, world, World};
use crate::tree::{App, GIVEN, LATE, MGRS, NODES, TICK};
use crate::s;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use stylist::manager::StyleManager;
use wasm_bindgen::JsCast;

thread_local! {
    static PANIC: RefCell<String> = RefCell::default();
}

/// (class of every `<i>`, answer shown by every `<b>`) in document order
fn walk(n: &Node, els: &mut Vec<Value>, shown: &mut Vec<Value>) {
    for k in n.kids.borrow().iter() {
        let num = |a: &str| k.attr(a).and_then(|x| x.parse::<usize>().ok()).unwrap_or(9999);
        match k.name.borrow().as_str() {
            "i" => els.push(json!({"n": num("data-n"), "class": k.attr("class").unwrap_or_default()})),
            "b" => shown.push(json!({"n": num("data-m"), "got": k.text_content()})),
            _ => (),
        }
        walk(k, els, shown);
    }
}

fn look(w: &World, root: &Node) -> Value {
    let (mut els, mut shown) = (vec![], vec![]);
    walk(root, &mut els, &mut shown);
    let mut errors = w.browser.errors.take();
    errors.retain(|e| !e.is_empty());
    json!({
        "els": els, "shown": shown, "late": LATE.with(|l| l.take()), "boxes": content(w),
        "listening": w.browser.listening().into_iter().map(|(q, k)| json!({"q": q, "k": k})).collect::<Vec<_>>(),
        "panic": PANIC.with(|p| p.take()), "errors": errors,
    })
}

async fn turns(k: usize) {
    for _ in 0..k {
        tokio::task::yield_now().await;
    }
}

/// Lets everything finish, or after a rushed event only the given number of turns happen.
async fn settle(e: &Value) {
    turns(if e["rush"] == true { e["turns"].as_u64().unwrap_or(0) as usize } else { 300 }).await
}

pub fn run(case: &Value) -> Value {
    let mut w = world(&case["page"]);
    // (yew would put its own hook in place of one set with `std::panic::set_hook`)
    yew::set_custom_panic_hook(Box::new(|m| {
        if std::env::var("NOISY").is_ok() {
            eprintln!("{m}");
        }
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_empty() {
                *p = m.to_string();
            }
        })
    }));
    let main = element("main");
    insert(&w.browser.body, &main, None).ok();
    w.named.insert("main".into(), main.clone());
    for q in case["q"].as_array().unwrap() {
        w.browser.media.borrow_mut().insert(s(q, "q").into(), q["is"] == true);
    }
    let nodes = |v: &Value| NODES.with(|x| *x.borrow_mut() = Rc::new(v.as_array().unwrap().clone()));
    nodes(&case["nodes"]);
    let ms = case["mgrs"].as_array().unwrap().iter().enumerate().map(|(i, m)| {
        if i == 0 {
            return StyleManager::default();
        }
        let mut b = StyleManager::builder().prefix(s(m, "prefix").to_string().into());
        if s(m, "box") != "" {
            b = b.container(web_node(&w.boxes[s(m, "box")]));
        }
        b.append(m["append"] != false).build().unwrap()
    }).collect();
    MGRS.with(|x| *x.borrow_mut() = ms);
    GIVEN.with(|g| g.borrow_mut().clear());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let set = tokio::task::LocalSet::new();
    let out = set.block_on(&rt, async {
        let mut out = vec![];
        let root: web_sys::Element = web_node(&main).unchecked_into();
        let app = yew::Renderer::<App>::with_root(root);
        let html = s(case, "html");
        let mut app = Some(if html.is_empty() {
            app.render()
        } else {
            parse_html(&main, html);
            app.hydrate()
        });
        settle(case).await;
        out.push(look(&w, &main));
        for e in case["ev"].as_array().unwrap() {
            match s(e, "op") {
                "edit" => {
                    nodes(&e["nodes"]);
                    let f = TICK.with(|t| t.borrow().clone());
                    if let Some(f) = f {
                        f();
                    }
                }
                "flip" => {
                    let mut m = w.browser.media.borrow_mut();
                    let x = m.entry(s(e, "q").to_string()).or_insert(false);
                    *x = !*x;
                }
                "report" => w.browser.report_media(),
                "end" => {
                    if let Some(a) = app.take() {
                        a.destroy();
                    }
                }
                m => crate::driver(&format!("unknown op {m}")),
            }
            settle(e).await;
            out.push(look(&w, &main));
        }
        std::mem::forget(app);
        out
    });
    Value::Array(out)
}
