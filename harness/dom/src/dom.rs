//! Histories of managers and styles, with what the containers hold after each event.
use crate::browser::{self, element, insert, text, Browser, Node, Obj};
use crate::{driver, guarded, s};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use stylist::ast::Sheet;
use stylist::manager::{StyleData, StyleManager};
use stylist::{GlobalStyle, Style, StyleSource};
use wasm_bindgen::native::{js_value, set_host};
use wasm_bindgen::JsCast;

enum H {
    S(Style),
    G(GlobalStyle),
}

impl H {
    fn seen(&self) -> Value {
        match self {
            H::S(s) => json!({"res": "ok", "id": s.id().to_string(), "css": s.get_style_str(), "class": s.get_class_name()}),
            H::G(s) => json!({"res": "ok", "id": s.id().to_string(), "css": s.get_style_str(), "class": s.id().to_string()}),
        }
    }
}

pub struct World {
    pub browser: Rc<Browser>,
    pub boxes: BTreeMap<String, Node>,
    mgrs: HashMap<String, StyleManager>,
    handles: HashMap<String, H>,
    pub named: HashMap<String, Node>,
}

pub fn web_node(n: &Node) -> web_sys::Node {
    js_value(browser::value(n)).unchecked_into()
}

/// A child of a container, made from its description.
fn make(w: &mut World, x: &Value) -> Node {
    let n = match s(x, "k") {
        "text" => text(s(x, "n")),
        "comment" => browser::comment(s(x, "n")),
        "style" => {
            let e = element("style");
            e.set_attr("data-style", s(x, "id"));
            browser::set_text(&e, &wasm_bindgen::native::Value::str(s(x, "css")));
            e
        }
        t => element(t),
    };
    if s(x, "k") != "style" {
        w.named.insert(s(x, "n").to_string(), n.clone());
    }
    n
}

fn items(w: &World, b: &Node) -> Value {
    b.kids
        .borrow()
        .iter()
        .map(|k| {
            if let Some((n, _)) = w.named.iter().find(|(_, x)| Rc::ptr_eq(x, k)) {
                return json!({"k": "other", "n": n, "css": ""});
            }
            match (k.class, k.attr("data-style")) {
                ("HTMLStyleElement", Some(id)) => json!({"k": "style", "n": id, "css": k.text_content()}),
                _ => json!({"k": "stray", "n": *k.name.borrow(), "css": ""}),
            }
        })
        .collect()
}

fn create(w: &World, e: &Value) -> stylist::Result<H> {
    let text = s(e, "text").to_string();
    let prefix = e["prefix"].as_str().filter(|m| *m != "(unset)").map(|m| m.to_string());
    let via = s(e, "via");
    let mgr = match s(e, "m") {
        "" => None,
        m => Some(w.mgrs[m].clone()),
    };
    macro_rules! with_src {
        ($f:expr) => {
            match via {
                "str" => $f(text.as_str()),
                "string" => $f(text),
                "cow" => $f(Cow::Owned(text) as Cow<'_, str>),
                "sheet" => $f(text.parse::<Sheet>()?),
                "clone" => $f(text.parse::<Sheet>()?.clone()),
                "rebuilt" => $f(Sheet::from(text.parse::<Sheet>()?.to_vec())),
                _ => $f(text.parse::<StyleSource>()?),
            }
        };
    }
    fn glob<C>(mgr: Option<StyleManager>, c: C) -> stylist::Result<H>
    where
        C: TryInto<StyleSource>,
        stylist::Error: From<C::Error>,
    {
        match mgr {
            None => GlobalStyle::new(c),
            Some(m) => GlobalStyle::new_with_manager(c, m),
        }
        .map(H::G)
    }
    fn scoped<C>(mgr: Option<StyleManager>, prefix: Option<String>, c: C) -> stylist::Result<H>
    where
        C: TryInto<StyleSource>,
        stylist::Error: From<C::Error>,
    {
        match (mgr, prefix) {
            (None, None) => Style::new(c),
            (None, Some(p)) => Style::create(p, c),
            (Some(m), None) => Style::new_with_manager(c, &m),
            (Some(m), Some(p)) => Style::create_with_manager(p, c, m),
        }
        .map(H::S)
    }
    if e["g"].as_bool().unwrap() {
        with_src!(|c| glob(mgr.clone(), c))
    } else {
        with_src!(|c| scoped(mgr.clone(), prefix.clone(), c))
    }
}

fn step(w: &mut World, e: &Value) -> Value {
    match s(e, "op") {
        "mgr" => {
            let mut b = StyleManager::builder();
            if s(e, "prefix") != "(unset)" {
                b = b.prefix(s(e, "prefix").to_string().into());
            }
            if s(e, "box") != "" {
                b = b.container(web_node(&w.boxes[s(e, "box")]));
            }
            if e["append"] == false || e["twice"] == true {
                b = b.append(false);
            }
            if e["append"] == true && e["twice"] == true {
                b = b.append(true);
            }
            w.browser.has_head.set(e["nohead"] != true);
            let r = b.build();
            w.browser.has_head.set(true);
            match r {
                Ok(m) => {
                    let prefix = m.prefix().to_string();
                    let c = m.container().map(|c| {
                        let n = browser::node_of(&wasm_bindgen::native::value_of(&c)).unwrap();
                        w.boxes.iter().find(|(_, b)| Rc::ptr_eq(b, &n)).map(|(k, _)| k.clone()).unwrap_or("?".into())
                    });
                    w.mgrs.insert(s(e, "m").to_string(), m);
                    json!({"res": "ok", "obs": prefix, "in": c.unwrap_or_default()})
                }
                Err(_) => json!({"res": "err", "obs": "", "in": ""}),
            }
        }
        "mgrdefault" => {
            let m = StyleManager::default();
            let prefix = m.prefix().to_string();
            w.mgrs.insert(s(e, "m").to_string(), m);
            json!({"res": "ok", "obs": prefix})
        }
        "mgrclone" => {
            let m = w.mgrs[s(e, "from")].clone();
            let prefix = m.prefix().to_string();
            w.mgrs.insert(s(e, "m").to_string(), m);
            json!({"res": "ok", "obs": prefix})
        }
        "mgrdrop" => {
            w.mgrs.remove(s(e, "m"));
            json!({"res": "ok"})
        }
        "mgreq" => json!({"res": "ok", "obs": if w.mgrs[s(e, "m")] == w.mgrs[s(e, "m2")] {"T"} else {"F"}}),
        "create" => {
            w.browser.fired.set(false);
            w.browser.fault.set(e["fault"].as_u64().map(|n| n as u32));
            let r = create(w, e);
            w.browser.fault.set(None);
            let mut v = match r {
                Ok(h) => {
                    let v = h.seen();
                    w.handles.insert(s(e, "h").to_string(), h);
                    v
                }
                Err(x) => json!({"res": "err", "id": "", "css": "", "class": "", "web": matches!(x, stylist::Error::Web(_))}),
            };
            v["fired"] = json!(w.browser.fired.get());
            v
        }
        // what was never made cannot be used
        "clone" | "drop" | "unreg" | "look" if !w.handles.contains_key(e["from"].as_str().unwrap_or(e["h"].as_str().unwrap_or(""))) => {
            json!({"res": "absent", "id": "", "css": "", "class": ""})
        }
        "clone" => {
            let h = match &w.handles[s(e, "from")] {
                H::S(m) => H::S(m.clone()),
                H::G(m) => H::G(m.clone()),
            };
            let v = h.seen();
            w.handles.insert(s(e, "h").to_string(), h);
            v
        }
        "drop" => {
            w.handles.remove(s(e, "h"));
            json!({"res": "ok"})
        }
        "unreg" => {
            match &w.handles[s(e, "h")] {
                H::S(m) => m.unregister(),
                H::G(m) => m.unregister(),
            }
            json!({"res": "ok"})
        }
        "look" => w.handles[s(e, "h")].seen(),
        // other code works on the page
        "put" => {
            let b = w.boxes[s(e, "box")].clone();
            let n = make(w, &e["x"]);
            let at = b.kids.borrow().get(e["at"].as_u64().unwrap() as usize).cloned();
            insert(&b, &n, at.as_ref()).unwrap_or_else(|_| driver("put"));
            json!({"res": "ok"})
        }
        "take" => {
            let b = w.boxes[s(e, "box")].clone();
            let n = b.kids.borrow().get(e["at"].as_u64().unwrap() as usize).cloned();
            if let Some(n) = n {
                browser::detach(&n);
            }
            json!({"res": "ok"})
        }
        // data of styles that the server rendered
        "load" => {
            let v: Value = e["data"]
                .as_array()
                .unwrap()
                .iter()
                .map(|d| {
                    let sheet = s(d, "text").parse::<Sheet>().unwrap();
                    json!({"key": {"is_global": d["g"], "prefix": s(d, "prefix"), "ast": serde_json::to_value(&sheet).unwrap()}, "id": s(d, "id")})
                })
                .collect();
            let d: StyleData = serde_json::from_value(v).unwrap_or_else(|x| driver(&x.to_string()));
            w.mgrs[s(e, "m")].load_style_data(&d);
            json!({"res": "ok"})
        }
        m => driver(&format!("unknown op {m}")),
    }
}

/// The containers of the page, with their content.
pub fn world(page: &Value) -> World {
    let b = Browser::new();
    set_host(b.clone());
    let mut w = World { browser: b.clone(), boxes: BTreeMap::new(), mgrs: HashMap::new(), handles: HashMap::new(), named: HashMap::new() };
    let div = element("div");
    insert(&b.body, &div, None).ok();
    w.named.insert("div".into(), div.clone());
    let host = element("section");
    insert(&div, &host, None).ok();
    w.named.insert("host".into(), host.clone());
    let shadow = Obj::new("ShadowRoot", "#shadow-root");
    *shadow.other.borrow_mut() = Rc::downgrade(&host);
    let frame = Browser::new();
    for (k, n) in [
        ("head", b.head.clone()),
        ("body", b.body.clone()),
        ("div", div),
        ("shadow", shadow),
        ("frame", frame.body.clone()),
        ("frag", Obj::new("DocumentFragment", "#document-fragment")),
        ("loose", element("div")),
        ("text", text("")),
        ("doc", b.document.clone()),
    ] {
        w.boxes.insert(k.into(), n);
    }
    w.named.insert("html".into(), b.document.kids.borrow()[0].clone());
    for x in page.as_array().unwrap() {
        if s(x, "k") == "html" {
            browser::parse_html(&w.boxes[s(x, "box")], s(x, "html"));
            continue;
        }
        let n = make(&mut w, x);
        insert(&w.boxes[s(x, "box")].clone(), &n, None).unwrap_or_else(|_| driver("page"));
    }
    w
}

pub fn content(w: &World) -> Value {
    w.boxes.iter().map(|(k, n)| (k.clone(), items(w, n))).collect::<serde_json::Map<_, _>>().into()
}

pub fn run(case: &Value) -> Value {
    let mut w = world(&case["page"]);
    let start = content(&w);
    let mut out = vec![];
    for e in case["ev"].as_array().unwrap() {
        let r = match guarded(|| step(&mut w, e)) {
            Ok(v) => v,
            Err(m) => json!({"res": "panic", "id": "", "css": "", "class": "", "obs": "", "in": "", "fired": w.browser.fired.get(), "web": false, "why": m}),
        };
        let mut ev = e.clone();
        for (k, v) in r.as_object().unwrap() {
            ev[k] = v.clone();
        }
        ev["boxes"] = content(&w);
        out.push(ev);
    }
    json!({"start": start, "ev": out})
}
