//! Executes histories of manager / style / static-data operations and records each outcome.
use crate::guarded;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use stylist::ast::Sheet;
use stylist::manager::StyleManager;
#[cfg(feature = "ssr")]
use stylist::manager::{render_static, StaticReader};
#[cfg(any(feature = "ssr", feature = "hydration"))]
use stylist::manager::StyleData;
use stylist::{GlobalStyle, Style, StyleSource};

enum H {
    S(Style),
    G(GlobalStyle),
}

impl H {
    fn id(&self) -> String {
        match self {
            H::S(s) => s.id().to_string(),
            H::G(s) => s.id().to_string(),
        }
    }
    fn css(&self) -> String {
        match self {
            H::S(s) => s.get_style_str().to_string(),
            H::G(s) => s.get_style_str().to_string(),
        }
    }
    fn class(&self) -> String {
        match self {
            H::S(s) => s.get_class_name().to_string(),
            H::G(s) => s.id().to_string(),
        }
    }
}

#[derive(Default)]
struct Shared {
    #[cfg(feature = "ssr")]
    readers: HashMap<String, StaticReader>,
    #[cfg(any(feature = "ssr", feature = "hydration"))]
    datas: HashMap<String, StyleData>,
}

#[derive(Default)]
struct World {
    mgrs: HashMap<String, StyleManager>,
    handles: HashMap<String, H>,
}

fn s<'a>(e: &'a Value, k: &str) -> &'a str {
    e[k].as_str().unwrap_or_else(|| panic!("missing {k} in {e}"))
}

fn seen(h: &H) -> Value {
    json!({"res": "ok", "id": h.id(), "css": h.css(), "class": h.class()})
}

fn create(w: &mut World, e: &Value) -> stylist::Result<H> {
    let via = s(e, "via");
    let tree = || {
        crate::ast::Builder::new(crate::ast::How {
            borrow: e["borrow"].as_u64().unwrap_or(0),
            cut: e["cut"].as_u64().unwrap_or(0) as usize,
        })
        .sheet(&e["ast"])
    };
    let text = if via == "tree" { String::new() } else { s(e, "text").to_string() };
    let prefix = e["prefix"].as_str().filter(|m| *m != "(unset)").map(|m| m.to_string());
    let mgr = match s(e, "m") {
        "" => None,
        m => Some(w.mgrs[m].clone()),
    };
    // All accepted ways of handing over a stylesheet.
    macro_rules! with_src {
        ($f:expr) => {
            match via {
                "str" => $f(text.as_str()),
                "string" => $f(text),
                "cow" => $f(Cow::Owned(text) as Cow<'_, str>),
                "sheet" => $f(text.parse::<Sheet>()?),
                "clone" => $f(text.parse::<Sheet>()?.clone()),
                "tree" => $f(tree()),
                "rebuilt" => $f(Sheet::from(text.parse::<Sheet>()?.to_vec())),
                _ => $f(text.parse::<StyleSource>()?),
            }
        };
    }
    fn glob<C>(mgr: Option<StyleManager>, c: C) -> stylist::Result<H>
    where
        C: TryInto<StyleSource>,
        stylist::Error: From<C::Error>,
    {
        match mgr {
            None => GlobalStyle::new(c),
            Some(m) => GlobalStyle::new_with_manager(c, m),
        }
        .map(H::G)
    }
    fn scoped<C>(mgr: Option<StyleManager>, prefix: Option<String>, c: C) -> stylist::Result<H>
    where
        C: TryInto<StyleSource>,
        stylist::Error: From<C::Error>,
    {
        match (mgr, prefix) {
            (None, None) => Style::new(c),
            (None, Some(p)) => Style::create(p, c),
            (Some(m), None) => Style::new_with_manager(c, &m),
            (Some(m), Some(p)) => Style::create_with_manager(p, c, m),
        }
        .map(H::S)
    }
    if e["g"].as_bool().unwrap() {
        with_src!(|c| glob(mgr.clone(), c))
    } else {
        with_src!(|c| scoped(mgr.clone(), prefix.clone(), c))
    }
}

#[allow(unused_variables)]
fn step(w: &mut World, sh: &Mutex<Shared>, e: &Value) -> Value {
    let used = match s(e, "op") {
        "clone" => Some("from"),
        "drop" | "unreg" | "look" => Some("h"),
        _ => None,
    };
    if used.is_some_and(|k| !w.handles.contains_key(s(e, k))) {
        return json!({"res": "nohandle", "id": "", "css": "", "class": "", "obs": ""});
    }
    let r = guarded(|| match s(e, "op") {
        "mgr" => {
            let mut b = StyleManager::builder();
            if s(e, "prefix") != "(unset)" {
                b = b.prefix(s(e, "prefix").to_string().into());
            }
            #[cfg(feature = "ssr")]
            if !s(e, "w").is_empty() {
                let (wr, rd) = render_static();
                b = b.writer(wr);
                sh.lock().unwrap().readers.insert(s(e, "w").to_string(), rd);
            }
            let m = b.build().expect("build");
            let prefix = m.prefix().to_string();
            w.mgrs.insert(s(e, "m").to_string(), m);
            json!({"res": "ok", "obs": prefix})
        }
        "mgrdefault" => {
            let m = StyleManager::default();
            let prefix = m.prefix().to_string();
            w.mgrs.insert(s(e, "m").to_string(), m);
            json!({"res": "ok", "obs": prefix})
        }
        "mgrclone" => {
            let m = w.mgrs[s(e, "from")].clone();
            let prefix = m.prefix().to_string();
            w.mgrs.insert(s(e, "m").to_string(), m);
            json!({"res": "ok", "obs": prefix})
        }
        "mgrdrop" => {
            w.mgrs.remove(s(e, "m"));
            json!({"res": "ok"})
        }
        "mgreq" => json!({"res": "ok", "obs": if w.mgrs[s(e, "m")] == w.mgrs[s(e, "m2")] {"T"} else {"F"}}),
        "create" => match create(w, e) {
            Ok(h) => {
                let v = seen(&h);
                w.handles.insert(s(e, "h").to_string(), h);
                v
            }
            Err(_) => json!({"res": "err", "id": "", "css": "", "class": ""}),
        },
        "clone" => {
            let h = match &w.handles[s(e, "from")] {
                H::S(m) => H::S(m.clone()),
                H::G(m) => H::G(m.clone()),
            };
            let v = seen(&h);
            w.handles.insert(s(e, "h").to_string(), h);
            v
        }
        "drop" => {
            w.handles.remove(s(e, "h"));
            json!({"res": "ok"})
        }
        "unreg" => {
            match &w.handles[s(e, "h")] {
                H::S(m) => m.unregister(),
                H::G(m) => m.unregister(),
            }
            json!({"res": "ok"})
        }
        "look" => seen(&w.handles[s(e, "h")]),
        #[cfg(feature = "ssr")]
        "read" => {
            let mut g = sh.lock().unwrap();
            let rd = g.readers.remove(s(e, "w")).unwrap();
            let d = rd.read_style_data();
            g.datas.insert(s(e, "d").to_string(), d);
            json!({"res": "ok"})
        }
        #[cfg(any(feature = "ssr", feature = "hydration"))]
        "dclone" => {
            let mut g = sh.lock().unwrap();
            let d = g.datas[s(e, "from")].clone();
            g.datas.insert(s(e, "d").to_string(), d);
            json!({"res": "ok"})
        }
        #[cfg(any(feature = "ssr", feature = "hydration"))]
        "dser" => {
            let mut g = sh.lock().unwrap();
            let src = &g.datas[s(e, "from")];
            let d: StyleData = if s(e, "fmt") == "json" {
                serde_json::from_str(&serde_json::to_string(src).unwrap()).unwrap()
            } else {
                bincode::deserialize(&bincode::serialize(src).unwrap()).unwrap()
            };
            g.datas.insert(s(e, "d").to_string(), d);
            json!({"res": "ok"})
        }
        #[cfg(any(feature = "ssr", feature = "hydration"))]
        "markup" => {
            let g = sh.lock().unwrap();
            let mut out = String::new();
            let data = &g.datas[s(e, "d")];
            data.write_static_markup(&mut out).unwrap();
            let n = out.chars().count();
            let short: Vec<Value> = if n > 4000 { vec![n / 2, n - 1, n] } else { vec![0, 1, 7, n / 3, n / 2, n - n / 7, n.max(1) - 1, n, n + 1] }
                .into_iter()
                .map(|room| {
                    let mut w = Short { room, text: String::new() };
                    let r = data.write_static_markup(&mut w);
                    json!({"enough": room >= n, "ok": r.is_ok(), "text": w.text})
                })
                .collect();
            json!({"res": "ok", "obs": out, "short": short})
        }
        #[cfg(feature = "hydration")]
        "load" => {
            let d = sh.lock().unwrap().datas[s(e, "d")].clone();
            w.mgrs[s(e, "m")].load_style_data(&d);
            json!({"res": "ok"})
        }
        m => panic!("unknown op {m}"),
    });
    match r {
        Ok(v) => v,
        Err(m) if m.starts_with("missing ") || m.starts_with("unknown op") => {
            eprintln!("driver error: {m}");
            std::process::exit(3)
        }
        Err(_) => json!({"res": "panic", "id": "", "css": "", "class": "", "obs": ""}),
    }
}

fn run_history(h: &Value) -> Value {
    let shared = Arc::new(Mutex::new(Shared::default()));
    let mut lanes: HashMap<u64, (Sender<Value>, Receiver<Value>, std::thread::JoinHandle<()>)> = HashMap::new();
    let mut out = Vec::new();
    for e in h.as_array().unwrap() {
        let th = e["th"].as_u64().unwrap_or(0);
        let lane = lanes.entry(th).or_insert_with(|| {
            let (tx, rx) = channel::<Value>();
            let (otx, orx) = channel::<Value>();
            let sh = shared.clone();
            let j = std::thread::spawn(move || {
                let mut w = World::default();
                for e in rx {
                    otx.send(step(&mut w, &sh, &e)).unwrap();
                }
            });
            (tx, orx, j)
        });
        lane.0.send(e.clone()).unwrap();
        let obs = lane.1.recv().unwrap_or_else(|_| json!({"res": "panic", "id": "", "css": "", "class": "", "obs": ""}));
        let mut ev = e.clone();
        for (k, v) in obs.as_object().unwrap() {
            ev[k.as_str()] = v.clone();
        }
        out.push(ev);
    }
    for (_, (tx, _, j)) in lanes {
        drop(tx);
        let _ = j.join();
    }
    Value::Array(out)
}

pub fn cmd(input: &Value) -> Value {
    Value::Array(input.as_array().unwrap().iter().map(run_history).collect())
}

/// Free-running threads: each executes its own history; the per-thread logs are returned.
pub fn cmd_threads(input: &Value) -> Value {
    let n = input.as_array().unwrap().len();
    let barrier = Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = input
        .as_array()
        .unwrap()
        .iter()
        .cloned()
        .map(|h| {
            let b = barrier.clone();
            std::thread::spawn(move || {
                let sh = Mutex::new(Shared::default());
                let mut w = World::default();
                b.wait();
                let mut out = Vec::new();
                for e in h.as_array().unwrap() {
                    let obs = step(&mut w, &sh, e);
                    let mut ev = e.clone();
                    for (k, v) in obs.as_object().unwrap() {
                        ev[k.as_str()] = v.clone();
                    }
                    out.push(ev);
                }
                Value::Array(out)
            })
        })
        .collect();
    Value::Array(hs.into_iter().map(|h| h.join().unwrap_or(json!([]))).collect())
}

/// Free-running threads that only create and unregister; the ids given out, per thread.

/// A writer that takes so many characters, and fails from then on.
#[cfg(any(feature = "ssr", feature = "hydration"))]
struct Short {
    room: usize,
    text: String,
}

#[cfg(any(feature = "ssr", feature = "hydration"))]
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.room == 0 {
                return Err(std::fmt::Error);
            }
            self.room -= 1;
            self.text.push(c);
        }
        Ok(())
    }
}

pub fn cmd_tight(input: &Value) -> Value {
    let (threads, n) = (input["threads"].as_u64().unwrap(), input["n"].as_u64().unwrap());
    let barrier = Arc::new(std::sync::Barrier::new(threads as usize));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let b = barrier.clone();
            std::thread::spawn(move || {
                let sheet: Sheet = "color: red;".parse().unwrap();
                let m = StyleManager::builder().prefix("t".into()).build().unwrap();
                b.wait();
                let mut out = Vec::new();
                for i in 0..n {
                    if (i + t) % 5 == 0 {
                        let g = GlobalStyle::new_with_manager(sheet.clone(), &m).unwrap();
                        out.push(g.id().to_string());
                        g.unregister();
                    } else {
                        let g = Style::new_with_manager(sheet.clone(), &m).unwrap();
                        out.push(g.id().to_string());
                        g.unregister();
                    }
                }
                out
            })
        })
        .collect();
    json!({"ids": hs.into_iter().map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>()})
}
