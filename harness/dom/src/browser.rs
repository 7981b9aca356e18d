//! An in-memory browser: the part of the DOM that stylist and yew use, with its errors.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::{Rc, Weak};

use wasm_bindgen::native::{truthy, Host, Import, Kind, Value};

pub struct Obj {
    pub class: &'static str,
    pub name: RefCell<String>,
    pub text: RefCell<String>,
    pub ns: RefCell<String>,
    pub attrs: RefCell<Vec<(String, String)>>,
    pub kids: RefCell<Vec<Rc<Obj>>>,
    pub parent: RefCell<Weak<Obj>>,
    /// Shadow root of an element, host of a shadow root.
    pub other: RefCell<Weak<Obj>>,
    pub props: RefCell<BTreeMap<String, Value>>,
    pub listeners: RefCell<Vec<(String, Value, bool)>>,
    last: Cell<bool>,
}

pub type Node = Rc<Obj>;
type Res = Result<Value, Value>;

const HTML: &str = "http://www.w3.org/1999/xhtml";

impl Obj {
    pub fn new(class: &'static str, name: &str) -> Node {
        Rc::new(Obj {
            class,
            name: RefCell::new(name.into()),
            text: RefCell::default(),
            ns: RefCell::new(HTML.into()),
            attrs: RefCell::default(),
            kids: RefCell::default(),
            parent: RefCell::new(Weak::new()),
            other: RefCell::new(Weak::new()),
            props: RefCell::default(),
            listeners: RefCell::default(),
            last: Cell::new(false),
        })
    }
    pub fn parent(&self) -> Option<Node> {
        self.parent.borrow().upgrade()
    }
    pub fn attr(&self, k: &str) -> Option<String> {
        self.attrs.borrow().iter().find(|(a, _)| a == k).map(|(_, v)| v.clone())
    }
    pub fn set_attr(&self, k: &str, v: &str) {
        let mut a = self.attrs.borrow_mut();
        match a.iter_mut().find(|(x, _)| x == k) {
            Some(x) => x.1 = v.into(),
            None => a.push((k.into(), v.into())),
        }
    }
    pub fn is_element(&self) -> bool {
        is_a(self.class, "Element")
    }
    pub fn text_content(&self) -> String {
        match self.class {
            "Text" | "Comment" => self.text.borrow().clone(),
            _ => self.kids.borrow().iter().filter(|k| k.class != "Comment").map(|k| k.text_content()).collect(),
        }
    }
}

pub fn value(n: &Node) -> Value {
    Value::Obj(n.clone() as Rc<dyn Any>)
}
pub fn opt(n: Option<Node>) -> Value {
    n.map(|n| value(&n)).unwrap_or(Value::Null)
}
pub fn node_of(v: &Value) -> Option<Node> {
    match v {
        Value::Obj(o) => o.clone().downcast::<Obj>().ok(),
        _ => None,
    }
}

fn class_of_tag(t: &str) -> &'static str {
    match t {
        "style" => "HTMLStyleElement",
        "head" => "HTMLHeadElement",
        "body" => "HTMLBodyElement",
        "html" => "HTMLHtmlElement",
        "input" => "HTMLInputElement",
        "textarea" => "HTMLTextAreaElement",
        "template" => "HTMLTemplateElement",
        "iframe" => "HTMLIFrameElement",
        "script" => "HTMLScriptElement",
        _ => "HTMLElement",
    }
}

fn is_a(class: &str, want: &str) -> bool {
    if class == want || want == "Object" {
        return true;
    }
    let up = match class {
        "HTMLElement" | "SVGElement" => "Element",
        c if c.starts_with("HTML") => "HTMLElement",
        "Element" | "CharacterData" | "DocumentFragment" | "Document" => "Node",
        "Text" | "Comment" => "CharacterData",
        "ShadowRoot" => "DocumentFragment",
        "Node" | "Window" | "MediaQueryList" => "EventTarget",
        _ => return false,
    };
    is_a(up, want)
}

pub fn element(tag: &str) -> Node {
    let t = tag.to_ascii_lowercase();
    Obj::new(class_of_tag(&t), &t)
}
pub fn text(s: &str) -> Node {
    let n = Obj::new("Text", "#text");
    *n.text.borrow_mut() = s.into();
    n
}
pub fn comment(s: &str) -> Node {
    let n = Obj::new("Comment", "#comment");
    *n.text.borrow_mut() = s.into();
    n
}

pub fn throw(name: &str, message: &str) -> Value {
    let e = Obj::new("DOMException", name);
    e.props.borrow_mut().insert("name".into(), Value::str(name));
    e.props.borrow_mut().insert("message".into(), Value::str(message));
    value(&e)
}

// ------------------------------------------------------------------- tree
pub fn detach(n: &Node) {
    if let Some(p) = n.parent() {
        p.kids.borrow_mut().retain(|k| !Rc::ptr_eq(k, n));
    }
    *n.parent.borrow_mut() = Weak::new();
}

fn includes(anc: &Node, n: &Node) -> bool {
    let mut at = Some(n.clone());
    while let Some(x) = at {
        if Rc::ptr_eq(&x, anc) {
            return true;
        }
        at = x.parent().or_else(|| x.other.borrow().upgrade().filter(|_| x.class == "ShadowRoot"));
    }
    false
}

pub fn insert(parent: &Node, n: &Node, before: Option<&Node>) -> Result<(), Value> {
    if !(parent.is_element() || matches!(parent.class, "Document" | "DocumentFragment" | "ShadowRoot")) {
        return Err(throw("HierarchyRequestError", "this node cannot have children"));
    }
    if includes(n, parent) {
        return Err(throw("HierarchyRequestError", "the new child contains the parent"));
    }
    if let Some(b) = before {
        if !b.parent().is_some_and(|p| Rc::ptr_eq(&p, parent)) {
            return Err(throw("NotFoundError", "not a child of this node"));
        }
    }
    if matches!(n.class, "Document" | "ShadowRoot") {
        return Err(throw("HierarchyRequestError", "cannot be inserted"));
    }
    if parent.class == "Document"
        && (n.class == "Text"
            || n.is_element() && parent.kids.borrow().iter().any(|k| k.is_element() && !Rc::ptr_eq(k, n)))
    {
        return Err(throw("HierarchyRequestError", "only one element on document allowed"));
    }
    let before = match before {
        Some(b) if Rc::ptr_eq(b, n) => next(n),
        b => b.cloned(),
    };
    let nodes = if n.class == "DocumentFragment" { n.kids.borrow().clone() } else { vec![n.clone()] };
    for x in nodes {
        detach(&x);
        let mut kids = parent.kids.borrow_mut();
        let i = before.as_ref().and_then(|b| kids.iter().position(|k| Rc::ptr_eq(k, b))).unwrap_or(kids.len());
        kids.insert(i, x.clone());
        drop(kids);
        *x.parent.borrow_mut() = Rc::downgrade(parent);
    }
    Ok(())
}

fn next(n: &Node) -> Option<Node> {
    let p = n.parent()?;
    let k = p.kids.borrow();
    let i = k.iter().position(|k| Rc::ptr_eq(k, n))?;
    k.get(i + 1).cloned()
}
fn previous(n: &Node) -> Option<Node> {
    let p = n.parent()?;
    let k = p.kids.borrow();
    let i = k.iter().position(|k| Rc::ptr_eq(k, n))?;
    i.checked_sub(1).and_then(|i| k.get(i).cloned())
}

fn remove_all(n: &Node) {
    for k in n.kids.take() {
        *k.parent.borrow_mut() = Weak::new();
    }
}

pub fn set_text(n: &Node, v: &Value) {
    let s = match v {
        Value::Str(s) => s.to_string(),
        Value::Undefined | Value::Null => String::new(),
        v => v.debug(),
    };
    match n.class {
        "Text" | "Comment" => *n.text.borrow_mut() = s,
        "Document" => {}
        _ => {
            remove_all(n);
            if !s.is_empty() {
                let t = text(&s);
                *t.parent.borrow_mut() = Rc::downgrade(n);
                n.kids.borrow_mut().push(t);
            }
        }
    }
}

fn clone_node(n: &Node, deep: bool) -> Node {
    let c = Obj::new(n.class, &n.name.borrow());
    *c.text.borrow_mut() = n.text.borrow().clone();
    *c.ns.borrow_mut() = n.ns.borrow().clone();
    *c.attrs.borrow_mut() = n.attrs.borrow().clone();
    if deep {
        for k in n.kids.borrow().iter() {
            let k = clone_node(k, true);
            *k.parent.borrow_mut() = Rc::downgrade(&c);
            c.kids.borrow_mut().push(k);
        }
    }
    c
}

/// The root of the tree a node is in.
fn root(n: &Node) -> Node {
    n.parent().map(|p| root(&p)).unwrap_or_else(|| n.clone())
}

// -------------------------------------------------------------- selectors
struct Simple {
    tag: Option<String>,
    tests: Vec<(String, char, String)>,
}

/// A list of chains of compound selectors with descendant combinators; anything else, and what is
/// not a valid selector, is a `SyntaxError` here.
fn parse_selector(s: &str) -> Option<Vec<Vec<Simple>>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut list = vec![];
    let ws = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c');
    fn start(c: char) -> bool {
        c.is_ascii_alphabetic() || c == '_' || !c.is_ascii()
    }
    fn ident(c: &[char], i: &mut usize) -> Option<String> {
        let mut out = String::new();
        let first = *i;
        if c.get(*i) == Some(&'-') {
            out.push('-');
            *i += 1;
        }
        loop {
            match c.get(*i) {
                Some('\\') => {
                    *i += 1;
                    let mut hex = String::new();
                    while hex.len() < 6 && c.get(*i).is_some_and(|x| x.is_ascii_hexdigit()) {
                        hex.push(c[*i]);
                        *i += 1;
                    }
                    if hex.is_empty() {
                        out.push(*c.get(*i)?);
                        *i += 1;
                    } else {
                        out.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
                        if c.get(*i) == Some(&' ') {
                            *i += 1;
                        }
                    }
                }
                Some(&x) if start(x) => {
                    out.push(x);
                    *i += 1;
                }
                Some(&x) if (x.is_ascii_digit() && !out.is_empty() && out != "-") || (x == '-' && *i > first) => {
                    out.push(x);
                    *i += 1;
                }
                _ => break,
            }
        }
        if out.is_empty() || out == "-" {
            None
        } else {
            Some(out)
        }
    }
    loop {
        let mut chain = vec![];
        loop {
            while i < c.len() && ws(c[i]) {
                i += 1;
            }
            if i >= c.len() || c[i] == ',' {
                break;
            }
            let mut one = Simple { tag: None, tests: vec![] };
            let at = i;
            if c[i] == '*' {
                i += 1;
            } else if start(c[i]) || c[i] == '-' || c[i] == '\\' {
                one.tag = Some(ident(&c, &mut i)?);
            }
            while i < c.len() {
                match c[i] {
                    '.' | '#' => {
                        let k = c[i];
                        i += 1;
                        let v = ident(&c, &mut i)?;
                        one.tests.push(if k == '.' { ("class".into(), '~', v) } else { ("id".into(), '=', v) });
                    }
                    '[' => {
                        i += 1;
                        let sp = |i: &mut usize| {
                            while *i < c.len() && ws(c[*i]) {
                                *i += 1;
                            }
                        };
                        sp(&mut i);
                        let k = ident(&c, &mut i)?;
                        sp(&mut i);
                        let mut op = '?';
                        let mut v = String::new();
                        if i < c.len() && c[i] != ']' {
                            op = c[i];
                            if matches!(op, '~' | '^' | '$' | '*' | '|') {
                                i += 1;
                            }
                            if c.get(i) != Some(&'=') {
                                return None;
                            }
                            i += 1;
                            sp(&mut i);
                            if matches!(c.get(i), Some('"') | Some('\'')) {
                                let q = c[i];
                                i += 1;
                                loop {
                                    let x = *c.get(i)?;
                                    i += 1;
                                    if x == q {
                                        break;
                                    }
                                    if x == '\n' {
                                        return None;
                                    }
                                    if x == '\\' {
                                        let mut hex = String::new();
                                        while hex.len() < 6 && c.get(i).is_some_and(|x| x.is_ascii_hexdigit()) {
                                            hex.push(c[i]);
                                            i += 1;
                                        }
                                        if hex.is_empty() {
                                            v.push(*c.get(i)?);
                                            i += 1;
                                        } else {
                                            v.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
                                            if c.get(i) == Some(&' ') {
                                                i += 1;
                                            }
                                        }
                                    } else {
                                        v.push(x);
                                    }
                                }
                            } else {
                                v = ident(&c, &mut i)?;
                            }
                            sp(&mut i);
                        }
                        if c.get(i) != Some(&']') {
                            return None;
                        }
                        i += 1;
                        one.tests.push((k.to_ascii_lowercase(), op, v));
                    }
                    x if ws(x) || x == ',' => break,
                    _ => return None,
                }
            }
            if i == at {
                return None;
            }
            chain.push(one);
        }
        if chain.is_empty() {
            return None;
        }
        list.push(chain);
        if i >= c.len() {
            return Some(list);
        }
        i += 1;
    }
}

fn matches_one(n: &Node, s: &Simple) -> bool {
    s.tag.as_ref().is_none_or(|t| n.name.borrow().eq_ignore_ascii_case(t))
        && s.tests.iter().all(|(k, op, v)| match (n.attr(k), op) {
            (None, _) => false,
            (Some(_), '?') => true,
            (Some(a), '=') => a == *v,
            (Some(a), '~') => a.split_ascii_whitespace().any(|x| x == v),
            (Some(a), '^') => !v.is_empty() && a.starts_with(v),
            (Some(a), '$') => !v.is_empty() && a.ends_with(v),
            (Some(a), '*') => !v.is_empty() && a.contains(v),
            (Some(a), _) => a == *v || a.starts_with(&format!("{v}-")),
        })
}
fn matches(n: &Node, chain: &[Simple]) -> bool {
    let Some((last, rest)) = chain.split_last() else { return true };
    if !matches_one(n, last) {
        return false;
    }
    if rest.is_empty() {
        return true;
    }
    let mut at = n.parent();
    while let Some(p) = at {
        if p.is_element() && matches(&p, rest) {
            return true;
        }
        at = p.parent();
    }
    false
}
fn query(n: &Node, s: &str) -> Result<Vec<Node>, Value> {
    let list = parse_selector(s).ok_or_else(|| throw("SyntaxError", &format!("{s:?} is not a valid selector")))?;
    let mut out = vec![];
    fn walk(n: &Node, list: &[Vec<Simple>], out: &mut Vec<Node>) {
        for k in n.kids.borrow().iter() {
            if k.is_element() && list.iter().any(|c| matches(k, c)) {
                out.push(k.clone());
            }
            walk(k, list, out);
        }
    }
    walk(n, &list, &mut out);
    Ok(out)
}

// ------------------------------------------------------------------- HTML
fn unescape(s: &str) -> String {
    if !s.contains('&') {
        return s.into();
    }
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let end = rest.find(';').unwrap_or(0);
        let r = match rest.get(1..end.max(1)).unwrap_or("") {
            "amp" => Some('&'),
            "lt" => Some('<'),
            "gt" => Some('>'),
            "quot" => Some('"'),
            "apos" => Some('\''),
            x if x.starts_with("#x") => u32::from_str_radix(&x[2..], 16).ok().and_then(char::from_u32),
            x if x.starts_with('#') => x[1..].parse().ok().and_then(char::from_u32),
            _ => None,
        };
        match r {
            Some(c) => {
                out.push(c);
                rest = &rest[end + 1..];
            }
            None => {
                out.push('&');
                rest = &rest[1..];
            }
        }
    }
    out + rest
}

/// Parses markup without errors or omitted tags into `parent`.
pub fn parse_html(parent: &Node, html: &str) {
    let mut stack = vec![parent.clone()];
    let mut rest = html;
    let add = |stack: &[Node], n: Node| {
        let p = stack.last().unwrap();
        *n.parent.borrow_mut() = Rc::downgrade(p);
        p.kids.borrow_mut().push(n);
    };
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let end = r.find("-->").unwrap_or(r.len());
            add(&stack, comment(&r[..end]));
            rest = r.get(end + 3..).unwrap_or("");
        } else if let Some(r) = rest.strip_prefix("</") {
            let end = r.find('>').unwrap_or(r.len());
            let t = r[..end].trim().to_ascii_lowercase();
            if let Some(i) = stack.iter().rposition(|n| *n.name.borrow() == t) {
                if i > 0 {
                    stack.truncate(i);
                }
            }
            rest = r.get(end + 1..).unwrap_or("");
        } else if rest.starts_with('<') && rest[1..].starts_with(|c: char| c.is_ascii_alphabetic()) {
            let r = &rest[1..];
            let n = r.find(|c: char| c.is_whitespace() || c == '>' || c == '/').unwrap_or(r.len());
            let e = element(&r[..n]);
            let mut r = &r[n..];
            loop {
                r = r.trim_start_matches(|c: char| c.is_whitespace() || c == '/');
                if r.is_empty() || r.starts_with('>') {
                    break;
                }
                let n = r.find(|c: char| c.is_whitespace() || matches!(c, '=' | '>' | '/')).unwrap_or(r.len()).max(1);
                let k = r[..n].to_ascii_lowercase();
                r = r[n..].trim_start();
                let mut v = String::new();
                if let Some(x) = r.strip_prefix('=') {
                    let x = x.trim_start();
                    if let Some(q) = x.chars().next().filter(|c| matches!(c, '"' | '\'')) {
                        let x = &x[1..];
                        let n = x.find(q).unwrap_or(x.len());
                        v = unescape(&x[..n]);
                        r = x.get(n + 1..).unwrap_or("");
                    } else {
                        let n = x.find(|c: char| c.is_whitespace() || c == '>').unwrap_or(x.len());
                        v = unescape(&x[..n]);
                        r = &x[n..];
                    }
                }
                e.set_attr(&k, &v);
            }
            rest = r.get(1..).unwrap_or("");
            let t = e.name.borrow().clone();
            add(&stack, e.clone());
            if matches!(&*t, "script" | "style") {
                let low = rest.to_ascii_lowercase();
                let end = low.find(&format!("</{t}")).unwrap_or(rest.len());
                set_text(&e, &Value::str(&rest[..end]));
                rest = &rest[end..];
                rest = rest.find('>').map(|i| &rest[i + 1..]).unwrap_or("");
            } else if !matches!(&*t, "br" | "input" | "img" | "hr" | "meta" | "link") {
                stack.push(e);
            }
        } else {
            let end = rest[1..].find('<').map(|i| i + 1).unwrap_or(rest.len());
            add(&stack, text(&unescape(&rest[..end])));
            rest = &rest[end..];
        }
    }
}

// --------------------------------------------------------------- the host
pub struct Browser {
    pub window: Node,
    pub document: Node,
    pub head: Node,
    pub body: Node,
    /// Queries to current answers.
    pub media: RefCell<BTreeMap<String, bool>>,
    pub lists: RefCell<Vec<Node>>,
    /// Whether `document.head` and `matchMedia` exist.
    pub has_head: Cell<bool>,
    /// Counts down over operations that insert or set up nodes; that at zero throws.
    pub fault: Cell<Option<u32>>,
    pub fired: Cell<bool>,
    pub errors: RefCell<Vec<String>>,
}

fn s(v: &Value) -> String {
    match v {
        Value::Str(s) => s.to_string(),
        Value::Undefined => "undefined".into(),
        Value::Null => "null".into(),
        Value::Num(n) => n.to_string(),
        Value::Bool(b) => b.to_string(),
        v => v.debug(),
    }
}

impl Browser {
    pub fn new() -> Rc<Browser> {
        let document = Obj::new("Document", "#document");
        let html = element("html");
        let head = element("head");
        let body = element("body");
        insert(&document, &html, None).ok().unwrap();
        insert(&html, &head, None).ok().unwrap();
        insert(&html, &body, None).ok().unwrap();
        Rc::new(Browser {
            window: Obj::new("Window", "window"),
            document,
            head,
            body,
            media: RefCell::default(),
            lists: RefCell::default(),
            has_head: Cell::new(true),
            fault: Cell::new(None),
            fired: Cell::new(false),
            errors: RefCell::default(),
        })
    }

    fn unsupported(&self, i: &Import, a: &[Value]) -> ! {
        let who = a.first().and_then(node_of).map(|n| n.class).unwrap_or("");
        eprintln!("NATIVE-UNSUPPORTED {:?} {}.{} on {} {:?}", i.kind, i.class, i.name, who, i.namespace);
        unsafe { libc::_exit(3) }
    }

    fn may_fail(&self) -> Result<(), Value> {
        if let Some(n) = self.fault.get() {
            if n == 0 {
                self.fault.set(None);
                self.fired.set(true);
                return Err(throw("InvalidStateError", "injected fault"));
            }
            self.fault.set(Some(n - 1));
        }
        Ok(())
    }

    fn answer(&self, q: &str) -> bool {
        self.media.borrow().get(q.trim()).copied().unwrap_or(false)
    }

    /// Tells the listeners of media queries whose answer changed since they were last told.
    pub fn report_media(&self) {
        let lists = self.lists.borrow().clone();
        for l in lists {
            let now = self.answer(&l.name.borrow());
            if l.last.replace(now) != now {
                let e = Obj::new("Event", "change");
                e.props.borrow_mut().insert("target".into(), value(&l));
                self.dispatch(&l, "change", &e);
            }
        }
    }

    pub fn dispatch(&self, target: &Node, kind: &str, event: &Node) {
        let ls = target.listeners.borrow().clone();
        for (k, f, c) in ls {
            let still = target.listeners.borrow().iter().any(|(k2, f2, c2)| *k2 == k && f2.same(&f) && *c2 == c);
            if k == kind && still {
                if let Value::Func(f) = &f {
                    if let Err(e) = f.call(&[value(event)]) {
                        self.errors.borrow_mut().push(s(&e));
                    }
                }
            }
        }
    }

    /// Numbers of `change` listeners by query.
    pub fn listening(&self) -> BTreeMap<String, usize> {
        let mut out = BTreeMap::new();
        for l in self.lists.borrow().iter() {
            let n = l.listeners.borrow().len();
            if n > 0 {
                *out.entry(l.name.borrow().clone()).or_insert(0) += n;
            }
        }
        out
    }

    fn get(&self, i: &Import, n: &Node, name: &str, a: &[Value]) -> Res {
        let kids = || n.kids.borrow();
        let elements = || kids().iter().filter(|k| k.is_element()).cloned().collect::<Vec<_>>();
        if n.props.borrow().contains_key(name) {
            return Ok(n.props.borrow()[name].clone());
        }
        let up = n.parent();
        Ok(match (n.class, name) {
            ("Window", "document") => value(&self.document),
            ("Window", "window" | "self") => value(&self.window),
            ("Window", "navigator" | "performance" | "location") => Value::Undefined,
            ("Document", "head") if self.has_head.get() => opt(kids().first().and_then(|h| h.kids.borrow().iter().find(|k| *k.name.borrow() == "head").cloned())),
            ("Document", "head") => Value::Null,
            ("Document", "body") => opt(kids().first().and_then(|h| h.kids.borrow().iter().find(|k| *k.name.borrow() == "body").cloned())),
            ("Document", "documentElement") => opt(kids().first().cloned()),
            ("Document", "defaultView") => value(&self.window),
            ("MediaQueryList", "matches") => Value::Bool(self.answer(&n.name.borrow())),
            ("MediaQueryList", "media") => Value::str(&*n.name.borrow()),
            ("NodeList", "length") => Value::Num(kids().len() as f64),
            ("ShadowRoot", "host") => opt(n.other.borrow().upgrade()),
            ("Event", "type") => Value::str(&*n.name.borrow()),
            (_, "firstChild") => opt(kids().first().cloned()),
            (_, "lastChild") => opt(kids().last().cloned()),
            (_, "firstElementChild") => opt(elements().first().cloned()),
            (_, "lastElementChild") => opt(elements().last().cloned()),
            (_, "childElementCount") => Value::Num(elements().len() as f64),
            (_, "nextSibling") => opt(next(n)),
            (_, "previousSibling") => opt(previous(n)),
            (_, "nextElementSibling") => {
                let mut x = next(n);
                while x.as_ref().is_some_and(|m| !m.is_element()) {
                    x = next(&x.unwrap());
                }
                opt(x)
            }
            (_, "parentNode") => opt(up),
            (_, "parentElement") => opt(up.filter(|p| p.is_element())),
            (_, "ownerDocument") => opt(Some(root(n)).filter(|r| r.class == "Document").or(Some(self.document.clone()))),
            (_, "isConnected") => {
                let mut r = root(n);
                if r.class == "ShadowRoot" {
                    let host = r.other.borrow().upgrade();
                    r = host.map(|h| root(&h)).unwrap_or(r);
                }
                Value::Bool(r.class == "Document")
            }
            (_, "childNodes") => {
                let l = Obj::new("NodeList", "");
                *l.kids.borrow_mut() = kids().clone();
                value(&l)
            }
            (_, "children") => {
                let l = Obj::new("NodeList", "");
                *l.kids.borrow_mut() = elements();
                value(&l)
            }
            (c, "nodeType") => Value::Num(match c {
                "Text" => 3.0,
                "Comment" => 8.0,
                "Document" => 9.0,
                "DocumentFragment" | "ShadowRoot" => 11.0,
                _ => 1.0,
            }),
            (_, "nodeName" | "tagName") => {
                let t = n.name.borrow();
                Value::str(if n.is_element() && *n.ns.borrow() == HTML { t.to_ascii_uppercase() } else { t.clone() })
            }
            (_, "localName") => Value::str(&*n.name.borrow()),
            (_, "namespaceURI") => Value::str(&*n.ns.borrow()),
            ("Document", "textContent") => Value::Null,
            (_, "textContent") => Value::str(n.text_content()),
            ("Text" | "Comment", "nodeValue" | "data") => Value::str(&*n.text.borrow()),
            (_, "nodeValue") => Value::Null,
            (c, "id" | "className") if is_a(c, "Element") => Value::str(n.attr(if name == "id" { "id" } else { "class" }).unwrap_or_default()),
            (c, "type" | "title" | "media" | "nonce" | "lang" | "rel" | "href" | "src") if is_a(c, "Element") => Value::str(n.attr(name).unwrap_or_default()),
            ("HTMLScriptElement", "text") => Value::str(n.text_content()),
            (c, "innerText") if is_a(c, "HTMLElement") => Value::str(n.text_content()),
            (c, "shadowRoot") if is_a(c, "Element") => opt(n.other.borrow().upgrade()),
            (_, n) if n.starts_with("__yew") => Value::Undefined,
            ("Object", _) => Value::Undefined,
            _ => self.unsupported(i, a),
        })
    }

    fn set(&self, i: &Import, n: &Node, name: &str, v: &Value, a: &[Value]) -> Res {
        match (n.class, name) {
            (c, "textContent") if is_a(c, "Node") => set_text(n, v),
            ("Text" | "Comment", "nodeValue" | "data") => set_text(n, v),
            (c, "nodeValue") if is_a(c, "Node") => {}
            (c, "innerHTML" | "innerText") if is_a(c, "Element") => {
                set_text(n, &Value::Null);
                if name == "innerText" || *n.name.borrow() == "style" {
                    set_text(n, v);
                } else {
                    parse_html(n, &s(v));
                }
            }
            (c, "id" | "className") if is_a(c, "Element") => n.set_attr(if name == "id" { "id" } else { "class" }, &s(v)),
            (c, _) if name.starts_with("__yew") || c == "Object" || c == "Event" => {
                n.props.borrow_mut().insert(name.into(), v.clone());
            }
            _ => self.unsupported(i, a),
        }
        Ok(Value::Undefined)
    }

    fn nodes(&self, args: &[Value]) -> Vec<Node> {
        let mut out = vec![];
        for a in args {
            match a {
                Value::List(l) => out.extend(self.nodes(&l.borrow())),
                Value::Str(t) => out.push(text(t)),
                a => out.extend(node_of(a)),
            }
        }
        out
    }

    fn method(&self, i: &Import, n: &Node, name: &str, a: &[Value]) -> Res {
        let arg = |k: usize| a.get(k + 1).cloned().unwrap_or(Value::Undefined);
        let node = |k: usize| node_of(&arg(k)).ok_or_else(|| throw("TypeError", "parameter is not of type 'Node'"));
        let wanted = |c: &str| is_a(n.class, c);
        Ok(match name {
            "createElement" | "createElementNS" if n.class == "Document" => {
                self.may_fail()?;
                if name == "createElement" {
                    let t = s(&arg(0));
                    if !t.starts_with(|c: char| c.is_ascii_alphabetic()) {
                        return Err(throw("InvalidCharacterError", "not a valid name"));
                    }
                    value(&element(&t))
                } else {
                    let e = Obj::new("SVGElement", &s(&arg(1)));
                    *e.ns.borrow_mut() = s(&arg(0));
                    value(&e)
                }
            }
            "createTextNode" if n.class == "Document" => value(&text(&s(&arg(0)))),
            "createComment" if n.class == "Document" => value(&comment(&s(&arg(0)))),
            "createDocumentFragment" if n.class == "Document" => value(&Obj::new("DocumentFragment", "#document-fragment")),
            "getElementById" => {
                let id = s(&arg(0));
                fn find(n: &Node, id: &str) -> Option<Node> {
                    let k = n.kids.borrow();
                    k.iter().find_map(|k| if k.attr("id").as_deref() == Some(id) { Some(k.clone()) } else { find(k, id) })
                }
                opt(find(n, &id))
            }
            "querySelector" => opt(query(n, &s(&arg(0)))?.into_iter().next()),
            "querySelectorAll" | "getElementsByTagName" => {
                let l = Obj::new("NodeList", "");
                *l.kids.borrow_mut() = query(n, &s(&arg(0)))?;
                value(&l)
            }
            "matches" if wanted("Element") => {
                let list = parse_selector(&s(&arg(0))).ok_or_else(|| throw("SyntaxError", "not a valid selector"))?;
                Value::Bool(list.iter().any(|c| matches(n, c)))
            }
            "closest" if wanted("Element") => {
                let list = parse_selector(&s(&arg(0))).ok_or_else(|| throw("SyntaxError", "not a valid selector"))?;
                let mut at = Some(n.clone());
                while let Some(x) = at.clone() {
                    if list.iter().any(|c| matches(&x, c)) {
                        break;
                    }
                    at = x.parent().filter(|p| p.is_element());
                }
                opt(at)
            }
            "item" | "get" if n.class == "NodeList" => match arg(0) {
                Value::Num(k) => opt(n.kids.borrow().get(k as usize).cloned()),
                _ => Value::Null,
            },
            "appendChild" => {
                self.may_fail()?;
                insert(n, &node(0)?, None)?;
                arg(0)
            }
            "insertBefore" => {
                self.may_fail()?;
                let b = node_of(&arg(1));
                insert(n, &node(0)?, b.as_ref())?;
                arg(0)
            }
            "append" | "prepend" => {
                self.may_fail()?;
                let first = n.kids.borrow().first().cloned();
                for x in self.nodes(&a[1..]) {
                    insert(n, &x, if name == "append" { None } else { first.as_ref() })?;
                }
                Value::Undefined
            }
            "before" | "after" | "replaceWith" => {
                self.may_fail()?;
                if let Some(p) = n.parent() {
                    let at = if name == "before" { Some(n.clone()) } else { next(n) };
                    if name == "replaceWith" {
                        detach(n);
                    }
                    for x in self.nodes(&a[1..]) {
                        insert(&p, &x, at.as_ref())?;
                    }
                }
                Value::Undefined
            }
            "replaceChildren" => {
                self.may_fail()?;
                remove_all(n);
                for x in self.nodes(&a[1..]) {
                    insert(n, &x, None)?;
                }
                Value::Undefined
            }
            "insertAdjacentElement" => {
                self.may_fail()?;
                let x = node(1)?;
                match &*s(&arg(0)).to_ascii_lowercase() {
                    "beforeend" => insert(n, &x, None)?,
                    "afterbegin" => {
                        let f = n.kids.borrow().first().cloned();
                        insert(n, &x, f.as_ref())?
                    }
                    "beforebegin" => insert(&n.parent().ok_or_else(|| throw("NoModificationAllowedError", ""))?, &x, Some(n))?,
                    "afterend" => insert(&n.parent().ok_or_else(|| throw("NoModificationAllowedError", ""))?, &x, next(n).as_ref())?,
                    _ => return Err(throw("SyntaxError", "")),
                }
                value(&x)
            }
            "replaceChild" => {
                self.may_fail()?;
                let old = node(1)?;
                let x = node(0)?;
                insert(n, &x, Some(&old))?;
                detach(&old);
                value(&old)
            }
            "removeChild" => {
                let x = node(0)?;
                if !x.parent().is_some_and(|p| Rc::ptr_eq(&p, n)) {
                    return Err(throw("NotFoundError", "not a child of this node"));
                }
                detach(&x);
                value(&x)
            }
            "remove" => {
                detach(n);
                Value::Undefined
            }
            "contains" => Value::Bool(node_of(&arg(0)).is_some_and(|x| {
                let mut at = Some(x);
                loop {
                    match at {
                        Some(y) if Rc::ptr_eq(&y, n) => break true,
                        Some(y) => at = y.parent(),
                        None => break false,
                    }
                }
            })),
            "isSameNode" => Value::Bool(node_of(&arg(0)).is_some_and(|x| Rc::ptr_eq(&x, n))),
            "hasChildNodes" => Value::Bool(!n.kids.borrow().is_empty()),
            "getRootNode" => value(&root(n)),
            "cloneNode" => value(&clone_node(n, truthy(&arg(0)))),
            "setAttribute" if wanted("Element") => {
                self.may_fail()?;
                let k = s(&arg(0));
                if k.is_empty() || k.contains(|c: char| c.is_whitespace() || matches!(c, '>' | '/' | '=')) {
                    return Err(throw("InvalidCharacterError", "not a valid name"));
                }
                n.set_attr(&k.to_ascii_lowercase(), &s(&arg(1)));
                Value::Undefined
            }
            "getAttribute" => n.attr(&s(&arg(0)).to_ascii_lowercase()).map(Value::str).unwrap_or(Value::Null),
            "hasAttribute" => Value::Bool(n.attr(&s(&arg(0)).to_ascii_lowercase()).is_some()),
            "removeAttribute" => {
                let k = s(&arg(0)).to_ascii_lowercase();
                n.attrs.borrow_mut().retain(|(a, _)| *a != k);
                Value::Undefined
            }
            "addEventListener" | "addListener" => {
                let (k, f, c) = if name == "addListener" { ("change".to_string(), arg(0), false) } else { (s(&arg(0)), arg(1), self.capture(&arg(2))) };
                if !n.listeners.borrow().iter().any(|(k2, f2, c2)| *k2 == k && f2.same(&f) && *c2 == c) {
                    n.listeners.borrow_mut().push((k, f, c));
                }
                Value::Undefined
            }
            "removeEventListener" | "removeListener" => {
                let (k, f, c) = if name == "removeListener" { ("change".to_string(), arg(0), false) } else { (s(&arg(0)), arg(1), self.capture(&arg(2))) };
                n.listeners.borrow_mut().retain(|(k2, f2, c2)| !(*k2 == k && f2.same(&f) && *c2 == c));
                Value::Undefined
            }
            "composedPath" => Value::List(Rc::default()),
            "matchMedia" if n.class == "Window" => {
                let l = Obj::new("MediaQueryList", s(&arg(0)).trim());
                l.last.set(self.answer(&l.name.borrow()));
                self.lists.borrow_mut().push(l.clone());
                value(&l)
            }
            _ => self.unsupported(i, a),
        })
    }

    fn capture(&self, v: &Value) -> bool {
        match node_of(v) {
            Some(o) => o.props.borrow().get("capture").map(truthy).unwrap_or(false),
            None => truthy(v),
        }
    }
}

impl Host for Browser {
    fn call(&self, i: &Import, a: Vec<Value>) -> Res {
        match i.kind {
            Kind::Static => Ok(match i.name {
                "self" | "window" | "globalThis" | "this" => value(&self.window),
                "document" => value(&self.document),
                _ => Value::Undefined,
            }),
            Kind::InstanceOf => Ok(Value::Bool(match &a[0] {
                Value::Func(_) => matches!(i.name, "Function" | "Object"),
                Value::List(_) => matches!(i.name, "Array" | "Object"),
                v => node_of(v).is_some_and(|n| is_a(n.class, i.name)),
            })),
            Kind::Constructor => match i.class {
                "Object" => Ok(value(&Obj::new("Object", ""))),
                "Array" => Ok(Value::List(Rc::default())),
                _ => self.unsupported(i, &a),
            },
            Kind::Function => match (i.namespace.first().copied().unwrap_or(""), i.name) {
                ("console", _) => {
                    if std::env::var("NOISY").is_ok() {
                        eprintln!("console.{}: {}", i.name, a.iter().map(|v| v.debug()).collect::<Vec<_>>().join(" "));
                    }
                    Ok(Value::Undefined)
                }
                ("Reflect", "set") => {
                    let n = node_of(&a[0]).ok_or(Value::Undefined)?;
                    self.set(i, &n, &s(&a[1]), &a[2], &a)?;
                    Ok(Value::Bool(true))
                }
                ("Reflect", "get") => {
                    let n = node_of(&a[0]).ok_or(Value::Undefined)?;
                    self.get(i, &n, &s(&a[1]), &a)
                }
                ("Object", "is") => Ok(Value::Bool(a[0].same(&a[1]))),
                _ => self.unsupported(i, &a),
            },
            Kind::StaticMethod => match (i.class, i.name) {
                ("Object", "is") => Ok(Value::Bool(a[0].same(&a[1]))),
                _ => self.unsupported(i, &a),
            },
            Kind::Getter | Kind::Setter | Kind::Method => {
                if let (Value::List(l), "length") = (&a[0], i.name) {
                    return Ok(Value::Num(l.borrow().len() as f64));
                }
                let Some(n) = node_of(&a[0]) else { self.unsupported(i, &a) };
                match i.kind {
                    Kind::Getter => self.get(i, &n, i.name, &a),
                    Kind::Setter => self.set(i, &n, i.name, &a[1], &a),
                    _ => self.method(i, &n, i.name, &a),
                }
            }
            _ => self.unsupported(i, &a),
        }
    }
}
