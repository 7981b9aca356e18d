//! Projection of the public AST types to uniform JSON nodes, and back.
//!
//! node = {"t": "a"|"b"|"r", "s": [strings], "v": string, "c": [nodes]}
//!   a: declaration    s = [name]      v = value
//!   b: block          s = selectors   c = content
//!   r: at-rule        s = [condition] c = content
//! Fragment boundaries are not observable in CSS and are joined.
use serde_json::{json, Value};
use std::borrow::Cow;
use stylist::ast::*;

fn join(fr: &[StringFragment]) -> String {
    fr.iter().map(|m| m.inner.as_ref()).collect()
}

pub fn sheet_json(s: &Sheet) -> Value {
    Value::Array(
        s.iter()
            .map(|m| match m {
                ScopeContent::Block(b) => block_json(b),
                ScopeContent::Rule(r) => rule_json(r),
            })
            .collect(),
    )
}

fn block_json(b: &Block) -> Value {
    json!({"t": "b",
           "s": b.condition.iter().map(|m| join(&m.fragments)).collect::<Vec<_>>(),
           "v": "", "c": content_json(&b.content)})
}

fn rule_json(r: &Rule) -> Value {
    json!({"t": "r", "s": [join(&r.condition)], "v": "", "c": content_json(&r.content)})
}

fn content_json(c: &[RuleBlockContent]) -> Value {
    Value::Array(
        c.iter()
            .map(|m| match m {
                RuleBlockContent::StyleAttr(a) => {
                    json!({"t": "a", "s": [a.key.as_ref()], "v": join(&a.value), "c": []})
                }
                RuleBlockContent::Rule(r) => rule_json(r),
                RuleBlockContent::Block(b) => block_json(b),
            })
            .collect(),
    )
}

/// How to build the pieces of a tree: owned, or leaked and borrowed, and how to cut fragments.
#[derive(Clone, Copy)]
pub struct How {
    /// bit mask consumed node by node: borrow or own
    pub borrow: u64,
    /// `cut % 10`: cut strings in pieces of this many chars (0: whole); `cut / 10`: with empty pieces
    /// nowhere (0), before (1), after (2), everywhere (3)
    pub cut: usize,
}

pub struct Builder {
    how: How,
    n: u32,
}

impl Builder {
    pub fn new(how: How) -> Self {
        Builder { how, n: 0 }
    }
    fn flip(&mut self) -> bool {
        self.n += 1;
        (self.how.borrow >> (self.n % 61)) & 1 == 1
    }
    fn cow_str(&mut self, s: String) -> Cow<'static, str> {
        if self.flip() {
            Cow::Borrowed(Box::leak(s.into_boxed_str()))
        } else {
            Cow::Owned(s)
        }
    }
    fn cow_vec<T: Clone>(&mut self, v: Vec<T>) -> Cow<'static, [T]> {
        if self.flip() {
            Cow::Borrowed(Box::leak(v.into_boxed_slice()))
        } else {
            Cow::Owned(v)
        }
    }
    fn frags(&mut self, s: &str) -> Cow<'static, [StringFragment]> {
        let chars: Vec<char> = s.chars().collect();
        let mut pieces: Vec<String> = if self.how.cut % 10 == 0 {
            vec![s.to_string()]
        } else {
            chars
                .chunks(self.how.cut % 10)
                .map(|c| c.iter().collect())
                .collect()
        };
        // Pieces without any character are pieces too.
        match self.how.cut / 10 {
            0 => {}
            1 => pieces.insert(0, String::new()),
            2 => pieces.push(String::new()),
            _ => {
                pieces = pieces
                    .into_iter()
                    .flat_map(|p| [String::new(), p, String::new()])
                    .collect()
            }
        }
        let v: Vec<StringFragment> = pieces
            .into_iter()
            .map(|p| StringFragment {
                inner: self.cow_str(p),
            })
            .collect();
        self.cow_vec(v)
    }
    pub fn sheet(&mut self, v: &Value) -> Sheet {
        let items: Vec<ScopeContent> = v
            .as_array()
            .unwrap()
            .iter()
            .map(|n| match n["t"].as_str().unwrap() {
                "b" => ScopeContent::Block(self.block(n)),
                "r" => ScopeContent::Rule(self.rule(n)),
                _ => panic!("bad top-level node"),
            })
            .collect();
        match self.n % 3 {
            0 => Sheet::from(items),
            1 => Sheet::from(self.cow_vec(items)),
            _ => {
                let st: &'static [ScopeContent] = Box::leak(items.into_boxed_slice());
                Sheet::from(st)
            }
        }
    }
    fn block(&mut self, n: &Value) -> Block {
        let sels: Vec<Selector> = n["s"]
            .as_array()
            .unwrap()
            .iter()
            .map(|s| Selector {
                fragments: self.frags(s.as_str().unwrap()),
            })
            .collect();
        let content = self.content(&n["c"]);
        Block {
            condition: self.cow_vec(sels),
            content: self.cow_vec(content),
        }
    }
    fn rule(&mut self, n: &Value) -> Rule {
        let condition = self.frags(n["s"][0].as_str().unwrap());
        let content = self.content(&n["c"]);
        Rule {
            condition,
            content: self.cow_vec(content),
        }
    }
    fn bow<T>(&mut self, t: T) -> Bow<'static, T> {
        if self.flip() {
            Bow::Borrowed(Box::leak(Box::new(t)))
        } else {
            Bow::Boxed(Box::new(t))
        }
    }
    fn content(&mut self, v: &Value) -> Vec<RuleBlockContent> {
        v.as_array()
            .unwrap()
            .iter()
            .map(|n| match n["t"].as_str().unwrap() {
                "a" => {
                    let key = n["s"][0].as_str().unwrap().to_string();
                    RuleBlockContent::StyleAttr(StyleAttribute {
                        key: self.cow_str(key),
                        value: self.frags(n["v"].as_str().unwrap()),
                    })
                }
                "b" => {
                    let b = self.block(n);
                    RuleBlockContent::Block(self.bow(b))
                }
                "r" => {
                    let r = self.rule(n);
                    RuleBlockContent::Rule(self.bow(r))
                }
                _ => panic!("bad node"),
            })
            .collect()
    }
}
