//! Component trees made from their description; rendered on the server (vh-ssr) and in the
//! in-memory browser (vh-dom).
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use stylist::manager::StyleManager;
use stylist::yew::{styled_component, styled_component_impl, use_media_query, use_prepared_media_query, use_style, Global, ManagerProvider};
use stylist::StyleSource;
use yew::platform::spawn_local;
use yew::prelude::*;
use yew::suspense::{Suspension, SuspensionResult};

thread_local! {
    pub static NODES: RefCell<Rc<Vec<Value>>> = RefCell::default();
    pub static MGRS: RefCell<Vec<StyleManager>> = RefCell::default();
    pub static MADE: RefCell<Vec<Value>> = RefCell::default();
    /// What media queries were rendered as.
    pub static LATE: RefCell<Vec<Value>> = RefCell::default();
    /// Stylesheets written by the component around a provider, with the node each was written for.
    pub static GIVEN: RefCell<std::collections::HashMap<usize, (Value, StyleSource)>> = RefCell::default();
    /// Renders the root again.
    pub static TICK: RefCell<Option<Rc<dyn Fn()>>> = RefCell::default();
}

pub fn node(n: usize) -> Value {
    NODES.with(|x| x.borrow()[n].clone())
}
pub fn num(x: &Value, k: &str) -> usize {
    x[k].as_u64().unwrap_or(0) as usize
}
pub fn st<'a>(x: &'a Value, k: &str) -> &'a str {
    x[k].as_str().unwrap_or("")
}
pub fn mgr(k: usize) -> StyleManager {
    MGRS.with(|m| m.borrow()[k].clone())
}
fn made(n: usize, id: &str, css: &str) {
    MADE.with(|m| m.borrow_mut().push(json!({"n": n, "id": id, "css": css})));
}
fn class_id(c: &Classes) -> String {
    c.to_string().split(' ').next().unwrap_or_default().to_string()
}

/// The shapes in which a stylesheet may be written; `text` of the node says the same.
macro_rules! shape {
    ($d:tt, $css:ident, $x:expr) => {{
        let v = st(&$x, "v").to_string();
        match num(&$x, "shape") {
            0 => $css!("color: ${v};", v = v),
            1 => $css!(color: $d{v};),
            2 => $css!(".a { margin: ${v}; } color: red;", v = v),
            3 => $css!(&:hover { padding: $d{v}; }),
            4 => $css!("@media print { color: ${v}; }", v = &v),
            _ => $css!("display: block;"),
        }
    }};
}
fn plain(x: &Value) -> StyleSource {
    use stylist::css;
    shape!($, css, x)
}

/// The same stylesheet from text.  (Conditions of at-rules are cut into other fragments by the
/// parser than by the macros, which makes them different stylesheets.)
pub fn from_text(x: &Value) -> StyleSource {
    if num(x, "shape") == 4 {
        plain(x)
    } else {
        st(x, "text").to_string().try_into().unwrap()
    }
}

#[derive(Properties, PartialEq, Clone)]
struct P {
    n: usize,
    /// Changes whenever the node or one below it does.
    #[prop_or_default]
    ver: usize,
}

fn kids(n: usize) -> Html {
    let x = node(n);
    x["kids"].as_array().unwrap().iter().map(|k| {
        let k = k.as_u64().unwrap() as usize;
        if x["keyed"] == true {
            html! { <u key={k} data-c={k.to_string()}>{render(k)}</u> }
        } else {
            html! { <u data-c={k.to_string()}>{render(k)}</u> }
        }
    }).collect()
}

fn render(n: usize) -> Html {
    let ver = num(&node(n), "ver");
    match st(&node(n), "kind") {
        "css" => html! { <CssDirect {n} {ver} /> },
        "cssv" => html! { <CssValue {n} {ver} /> },
        "impl" => html! { <CssImpl {n} {ver} /> },
        "hook" => html! { <CssHook {n} {ver} /> },
        "uselit" => html! { <UseLit {n} {ver} /> },
        "useinl" => html! { <UseInl {n} {ver} /> },
        "usetext" => html! { <UseText {n} {ver} /> },
        "glob" => html! { <Glob {n} {ver} /> },
        "prov" if num(&node(n), "via") % 2 == 1 => html! { <Provide {n} {ver} /> },
        "prov" => {
            let m = mgr(num(&node(n), "mgr"));
            html! { <ManagerProvider manager={m}>{kids(n)}</ManagerProvider> }
        }
        "susp" => html! { <Suspense fallback={html! { <s>{"wait"}</s> }}>{kids(n)}</Suspense> },
        "mq" => html! { <Query {n} {ver} /> },
        "media" => html! { <Media {n} {ver} /> },
        _ => html! { <Plain {n} {ver} /> },
    }
}

/// Suspends `k` turns of the executor before answering.
#[hook]
fn use_wait(k: usize) -> SuspensionResult<()> {
    let s = use_memo((), move |_| {
        (k > 0).then(|| {
            let (s, h) = Suspension::new();
            spawn_local(async move {
                for _ in 0..k {
                    tokio::task::yield_now().await;
                }
                h.resume();
            });
            s
        })
    });
    match &*s {
        Some(s) if !s.resumed() => Err(s.clone()),
        _ => Ok(()),
    }
}

/// A provider whose component writes the stylesheets of components below the provider.
#[styled_component]
fn Provide(p: &P) -> Html {
    let x = node(p.n);
    for k in x["kids"].as_array().unwrap() {
        let k = k.as_u64().unwrap() as usize;
        let y = node(k);
        if num(&y, "via") == 4 && y["styled"] == true {
            GIVEN.with(|g| g.borrow_mut().insert(k, (y.clone(), shape!($, css, y))));
        }
    }
    let m = mgr(num(&x, "mgr"));
    html! { <ManagerProvider manager={m}>{kids(p.n)}</ManagerProvider> }
}
fn given(n: usize, x: &Value) -> Option<StyleSource> {
    // The same source each time the same node is rendered.
    GIVEN.with(|g| g.borrow().get(&n).filter(|(y, _)| y == x).map(|(_, s)| s.clone()))
}
#[function_component]
fn Plain(p: &P) -> HtmlResult {
    use_wait(num(&node(p.n), "delay"))?;
    Ok(kids(p.n))
}
#[styled_component]
fn CssDirect(p: &P) -> HtmlResult {
    let x = node(p.n);
    use_wait(num(&x, "delay"))?;
    Ok(html! { <i data-n={p.n.to_string()} class={shape!($, css, x)}>{kids(p.n)}</i> })
}
#[styled_component(CssValue)]
fn css_value(p: &P) -> HtmlResult {
    let x = node(p.n);
    let c: Classes = shape!($, css, x).into();
    made(p.n, &class_id(&c), "");
    use_wait(num(&x, "delay"))?;
    Ok(html! { <i data-n={p.n.to_string()} class={c}>{kids(p.n)}</i> })
}
#[styled_component_impl]
#[function_component(CssImpl)]
fn css_impl(p: &P) -> HtmlResult {
    let x = node(p.n);
    use_wait(num(&x, "delay"))?;
    let c = Classes::from(shape!($, css, x));
    made(p.n, &class_id(&c), "");
    Ok(html! { <i data-n={p.n.to_string()} class={c}>{kids(p.n)}</i> })
}
#[styled_component_impl]
#[hook]
fn use_own(n: usize) -> Classes {
    let x = node(n);
    shape!($, css, x).into()
}
#[function_component]
fn CssHook(p: &P) -> HtmlResult {
    use_wait(num(&node(p.n), "delay"))?;
    let c = use_own(p.n);
    made(p.n, &class_id(&c), "");
    Ok(html! { <i data-n={p.n.to_string()} class={c}>{kids(p.n)}</i> })
}
#[function_component]
fn UseLit(p: &P) -> HtmlResult {
    let x = node(p.n);
    use_wait(num(&x, "delay"))?;
    let s = use_style!("color: ${v};", v = st(&x, "v").to_string());
    made(p.n, s.get_class_name(), s.get_style_str());
    Ok(html! { <i data-n={p.n.to_string()} class={s}>{kids(p.n)}</i> })
}
#[function_component]
fn UseInl(p: &P) -> HtmlResult {
    let x = node(p.n);
    let s = use_style!(color: ${st(&x, "v").to_string()};);
    made(p.n, s.get_class_name(), s.get_style_str());
    use_wait(num(&x, "delay"))?;
    Ok(html! { <i data-n={p.n.to_string()} class={classes!(s)}>{kids(p.n)}</i> })
}
#[function_component]
fn UseText(p: &P) -> HtmlResult {
    let x = node(p.n);
    use_wait(num(&x, "delay"))?;
    let s = use_style(given(p.n, &x).unwrap_or_else(|| from_text(&x)));
    made(p.n, s.get_class_name(), s.get_style_str());
    Ok(html! { <i data-n={p.n.to_string()} class={s.get_class_name().to_string()}>{kids(p.n)}</i> })
}
#[styled_component]
fn Glob(p: &P) -> HtmlResult {
    let x = node(p.n);
    use_wait(num(&x, "delay"))?;
    let g = match num(&x, "via") {
        4 => {
            let css = given(p.n, &x).unwrap_or_else(|| plain(&x));
            html! { <Global {css} /> }
        }
        0 => html! { <Global css={plain(&x)} /> },
        1 if num(&x, "shape") != 4 => html! { <Global css={st(&x, "text").to_string()} /> },
        2 if num(&x, "shape") != 4 => html! { <Global css={st(&x, "text").parse::<stylist::ast::Sheet>().unwrap()} /> },
        _ => html! { <Global css={shape!($, css, x)} /> },
    };
    Ok(html! { <>{g}{kids(p.n)}</> })
}
fn query(x: &Value) -> &str {
    match st(x, "q") {
        "" => "(min-width: 1px)",
        q => q,
    }
}
#[function_component]
fn Media(p: &P) -> HtmlResult {
    let x = node(p.n);
    let fallback = x["fallback"] == true;
    let m = use_prepared_media_query(query(&x), fallback)?;
    LATE.with(|l| l.borrow_mut().push(json!({"n": p.n, "got": m, "want": fallback})));
    Ok(html! { <><b data-m={p.n.to_string()}>{m.to_string()}</b>{kids(p.n)}</> })
}
#[function_component]
fn Query(p: &P) -> Html {
    let x = node(p.n);
    let m = use_media_query(query(&x));
    LATE.with(|l| l.borrow_mut().push(json!({"n": p.n, "got": m, "want": m})));
    html! { <><b data-m={p.n.to_string()}>{m.to_string()}</b>{kids(p.n)}</> }
}
#[function_component]
pub fn App() -> Html {
    let again = use_force_update();
    TICK.with(|t| *t.borrow_mut() = Some(Rc::new(move || again.force_update())));
    let root = num(&node(0), "root");
    html! { <Suspense fallback={html! { <s>{"wait"}</s> }}><u data-c={root.to_string()}>{render(root)}</u></Suspense> }
}
