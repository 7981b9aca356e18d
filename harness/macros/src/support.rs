//! Support for generated programs full of macro invocations (see lib/macros.py).
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::Cell;
use std::sync::{Arc, Barrier, Mutex};
use stylist::ast::Sheet;

#[path = "@AST@"]
pub mod ast;

thread_local! {
    /// The number of the run this thread executes.
    pub static RUN: Cell<usize> = const { Cell::new(0) };
}
pub fn run() -> usize {
    RUN.with(|m| m.get())
}
pub static COUNT: Mutex<Vec<u32>> = Mutex::new(Vec::new());

/// An expression whose value changes from run to run and whose evaluations are counted.
pub fn ev(i: usize) -> String {
    let mut c = COUNT.lock().unwrap();
    if c.len() <= i {
        c.resize(i + 1, 0);
    }
    c[i] += 1;
    format!("v{}r{}", i, run())
}

/// Values that look constant, but display what is current.
pub struct Live(pub &'static str);
impl std::fmt::Display for Live {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", self.0, run())
    }
}
impl Live {
    pub const NOW: Live = Live("now");
    pub fn new() -> Live {
        Live("new")
    }
    pub fn text(&self) -> String {
        self.to_string()
    }
}
impl Default for Live {
    fn default() -> Live {
        Live("dflt")
    }
}
pub fn now() -> String {
    format!("now{}", run())
}
#[macro_export]
macro_rules! clock {
    () => {
        format!("mac{}", $crate::support::run())
    };
}
pub use crate::clock;
pub static LIVE: Live = Live("live");
pub const W: Live = Live("w");
pub const LIVES: [Live; 2] = [Live("x"), Live("y")];
pub mod theme {
    pub struct Source(&'static str);
    impl Source {
        pub fn get(&self) -> String {
            format!("{}{}", self.0, super::run())
        }
    }
    pub static CELL: Source = Source("cell");
    pub static MAKE: fn() -> String = size;
    pub fn size() -> String {
        format!("size{}", super::run())
    }
    pub const fn sized(_: u8) -> super::Live {
        super::Live("s2")
    }
    pub unsafe fn raw() -> String {
        format!("raw{}", super::run())
    }
    pub static GAP_2: super::Live = super::Live("gap");
    pub static PAIR: (super::Live, i32) = (super::Live("one"), 2);
}
pub struct Kept {
    pub s: String,
}
impl std::fmt::Display for Kept {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.s)
    }
}
#[macro_export]
macro_rules! same {
    ($e:expr) => {
        $e
    };
}

pub struct Obs(pub Value, pub Option<Sheet>);

pub fn tree(s: Sheet) -> Obs {
    Obs(json!({"res": "tree", "ast": ast::sheet_json(&s), "id": "", "css": "", "g": false}), Some(s))
}
pub fn style(s: stylist::Result<stylist::Style>) -> Obs {
    match s {
        Ok(s) => Obs(
            json!({"res": "css", "ast": [], "id": s.get_class_name(), "css": s.get_style_str(), "g": false}),
            None,
        ),
        Err(e) => Obs(json!({"res": "err", "ast": [], "id": e.to_string(), "css": "", "g": false}), None),
    }
}
pub fn global(s: stylist::Result<stylist::GlobalStyle>) -> Obs {
    match s {
        Ok(s) => Obs(json!({"res": "css", "ast": [], "id": s.id(), "css": s.get_style_str(), "g": true}), None),
        Err(e) => Obs(json!({"res": "err", "ast": [], "id": e.to_string(), "css": "", "g": true}), None),
    }
}

/// `together`: all runs at once, each on a thread of its own (the first execution is contended).
pub fn drive(cases: &[(usize, fn() -> Obs, bool)], runs: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = Vec::new();
    for (k, f, together) in cases {
        let mut seen = Vec::new();
        let mut sheets = Vec::new();
        let mut ahead = Vec::new();
        if *together {
            let gate = Arc::new(Barrier::new(runs));
            for n in 0..runs {
                let (f, gate) = (*f, gate.clone());
                ahead.push(std::thread::spawn(move || {
                    RUN.with(|m| m.set(n));
                    gate.wait();
                    f()
                }));
            }
            ahead.reverse();
        }
        for n in 0..runs {
            RUN.with(|m| m.set(n));
            let f = *f;
            // The last run happens on a thread of its own.
            let r = if let Some(t) = ahead.pop() {
                t.join()
            } else if n + 1 == runs {
                std::thread::spawn(move || {
                    RUN.with(|m| m.set(n));
                    f()
                })
                .join()
            } else {
                catch_unwind(AssertUnwindSafe(f))
            };
            match r {
                Ok(Obs(v, s)) => {
                    seen.push(v);
                    sheets.push(s);
                }
                Err(_) => seen.push(json!({"res": "panic", "ast": [], "id": "", "css": "", "g": false})),
            }
        }
        let same = if sheets.len() == runs && sheets.iter().all(|s| s.is_some()) {
            if sheets.iter().all(|s| *s == sheets[0]) { "T" } else { "F" }
        } else {
            "?"
        };
        out.push(json!({"i": k, "runs": seen, "same": same}));
    }
    let counts = COUNT.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let v = json!({"cases": out, "counts": counts});
    std::fs::write(std::env::args().nth(1).unwrap(), v.to_string()).unwrap();
}
