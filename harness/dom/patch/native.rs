//! A native stand-in for the JavaScript side: a heap of JS values, the codec between the
//! wasm-bindgen ABI and those values, and a hook through which a host provides the objects.
#![allow(missing_docs)]
#![allow(clippy::all)]

use crate::__rt::WasmWord;
use crate::convert::{WasmAbi, WasmPrimitive, WasmRet};
use crate::describe::*;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::prelude::v1::*;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Function,
    Constructor,
    StaticMethod,
    Method,
    Getter,
    Setter,
    IndexGet,
    IndexSet,
    IndexDelete,
    Static,
    InstanceOf,
    Link,
}

#[derive(Debug)]
pub struct Import {
    pub kind: Kind,
    /// The JavaScript name: of the function, the property or (for `InstanceOf`) the class.
    pub name: &'static str,
    pub class: &'static str,
    pub namespace: &'static [&'static str],
    pub catch: bool,
    pub variadic: bool,
}

/// A function made from a Rust closure.
pub struct Func {
    a: Cell<usize>,
    b: usize,
    invoke: usize,
    args: Vec<Vec<u64>>,
    ret: Vec<u64>,
    owned: bool,
    mutable: bool,
    running: Cell<u32>,
    dropped: Cell<bool>,
}

#[derive(Clone)]
pub enum Value {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Big(i128),
    Str(Rc<str>),
    Func(Rc<Func>),
    Bytes(Rc<RefCell<Vec<u8>>>),
    List(Rc<RefCell<Vec<Value>>>),
    Obj(Rc<dyn Any>),
}

impl Value {
    pub fn str(s: impl AsRef<str>) -> Value {
        Value::Str(Rc::from(s.as_ref()))
    }

    pub fn is_nullish(&self) -> bool {
        matches!(self, Value::Undefined | Value::Null)
    }

    pub fn same(&self, other: &Value) -> bool {
        match (self, other) {
            (Value::Undefined, Value::Undefined) | (Value::Null, Value::Null) => true,
            (Value::Bool(a), Value::Bool(b)) => a == b,
            (Value::Num(a), Value::Num(b)) => a == b,
            (Value::Big(a), Value::Big(b)) => a == b,
            (Value::Str(a), Value::Str(b)) => a == b,
            (Value::Func(a), Value::Func(b)) => Rc::ptr_eq(a, b),
            (Value::Bytes(a), Value::Bytes(b)) => Rc::ptr_eq(a, b),
            (Value::List(a), Value::List(b)) => Rc::ptr_eq(a, b),
            (Value::Obj(a), Value::Obj(b)) => {
                Rc::as_ptr(a) as *const () == Rc::as_ptr(b) as *const ()
            }
            _ => false,
        }
    }

    pub fn debug(&self) -> String {
        match self {
            Value::Undefined => "undefined".into(),
            Value::Null => "null".into(),
            Value::Bool(b) => b.to_string(),
            Value::Num(n) => n.to_string(),
            Value::Big(n) => n.to_string(),
            Value::Str(s) => std::format!("{:?}", s),
            Value::Func(_) => "Function".into(),
            Value::Bytes(_) => "Bytes".into(),
            Value::List(_) => "Array".into(),
            Value::Obj(_) => "Object".into(),
        }
    }
}

/// What the environment provides. An `Err` is a JavaScript exception.
pub trait Host {
    fn call(&self, import: &Import, args: Vec<Value>) -> Result<Value, Value>;
}

#[derive(Default)]
struct Heap {
    slots: Vec<Option<Value>>,
    free: Vec<u32>,
}

const FIRST: u32 = crate::__rt::JSIDX_RESERVED;

std::thread_local! {
    static HEAP: RefCell<Heap> = RefCell::default();
    static HOST: RefCell<Option<Rc<dyn Host>>> = RefCell::default();
    static INFORMED: RefCell<Vec<u64>> = RefCell::default();
}

pub fn set_host(host: Rc<dyn Host>) {
    HOST.with(|m| *m.borrow_mut() = Some(host));
}

/// Number of live references into the JS heap.
pub fn live() -> usize {
    HEAP.with(|m| {
        let m = m.borrow();
        m.slots.len() - m.free.len()
    })
}

#[cold]
fn unsupported(what: &str) -> ! {
    std::panic!("NATIVE-UNSUPPORTED {}", what)
}

// ------------------------------------------------------------------ heap

fn heap_put(v: Value) -> u32 {
    match v {
        Value::Undefined => crate::__rt::JSIDX_UNDEFINED,
        Value::Null => crate::__rt::JSIDX_NULL,
        Value::Bool(true) => crate::__rt::JSIDX_TRUE,
        Value::Bool(false) => crate::__rt::JSIDX_FALSE,
        v => HEAP.with(|m| {
            let mut m = m.borrow_mut();
            if let Some(i) = m.free.pop() {
                m.slots[i as usize] = Some(v);
                FIRST + i
            } else {
                m.slots.push(Some(v));
                FIRST + (m.slots.len() - 1) as u32
            }
        }),
    }
}

fn heap_get(idx: u32) -> Value {
    match idx {
        0 | crate::__rt::JSIDX_UNDEFINED => Value::Undefined,
        crate::__rt::JSIDX_NULL => Value::Null,
        crate::__rt::JSIDX_TRUE => Value::Bool(true),
        crate::__rt::JSIDX_FALSE => Value::Bool(false),
        idx => HEAP.with(|m| {
            m.borrow()
                .slots
                .get((idx.wrapping_sub(FIRST)) as usize)
                .cloned()
                .flatten()
                .expect("NATIVE: use of a dropped JS value")
        }),
    }
}

fn heap_drop(idx: u32) {
    if idx < FIRST {
        return;
    }
    // The value is dropped after the borrow ended, as that may run arbitrary code.
    let _v = HEAP.with(|m| {
        let mut m = m.borrow_mut();
        let i = idx - FIRST;
        let v = m.slots[i as usize].take();
        assert!(v.is_some(), "NATIVE: JS value dropped twice");
        m.free.push(i);
        v
    });
}

pub(crate) unsafe extern "C" fn object_clone_ref(idx: u32) -> u32 {
    heap_put(heap_get(idx))
}

pub(crate) unsafe extern "C" fn object_drop_ref(idx: u32) {
    heap_drop(idx)
}

/// A string.
pub fn node_value(s: &str) -> Value {
    Value::str(s)
}

/// What a `JsValue` refers to.
pub fn value_of(v: &crate::JsValue) -> Value {
    heap_get(v.idx)
}

pub fn js_value(v: Value) -> crate::JsValue {
    crate::JsValue::_new(heap_put(v))
}

// ----------------------------------------------------------- descriptors

pub(crate) fn inform_word(w: u64) {
    INFORMED.with(|m| m.borrow_mut().push(w));
}

fn described(f: fn()) -> Vec<u64> {
    let saved = INFORMED.with(|m| std::mem::take(&mut *m.borrow_mut()));
    f();
    INFORMED.with(|m| std::mem::replace(&mut *m.borrow_mut(), saved))
}

/// The number of words of the first type of a descriptor.
fn extent(d: &[u64]) -> usize {
    match d[0] as u32 {
        REF | REFMUT | LONGREF | SLICE | VECTOR | OPTIONAL | RESULT | CLAMPED | NULLABLE => {
            1 + extent(&d[1..])
        }
        SEQ_MODE => 2 + extent(&d[2..]),
        NAMED_EXTERNREF => 2 + d[1] as usize,
        FUNCTION => {
            let mut at = 3;
            for _ in 0..d[2] {
                at += extent(&d[at..]);
            }
            at += extent(&d[at..]);
            at + extent(&d[at..])
        }
        CLOSURE => 3 + extent(&d[3..]),
        ENUM | STRING_ENUM | DYNAMIC_UNION | RUST_STRUCT => {
            unsupported(&std::format!("descriptor {}", d[0]))
        }
        _ => 1,
    }
}

type Words = [u64; 4];

fn word(w: u64) -> usize {
    f64::from_bits(w) as usize
}

fn unword(v: usize) -> u64 {
    (v as f64).to_bits()
}

fn func(d: &[u64], w: &Words, owned: bool, mutable: bool) -> Value {
    // d: FUNCTION, invoke, argc, args.., ret, ret
    let mut args = Vec::new();
    let mut at = 3;
    for _ in 0..d[2] {
        let n = extent(&d[at..]);
        args.push(d[at..at + n].to_vec());
        at += n;
    }
    let n = extent(&d[at..]);
    Value::Func(Rc::new(Func {
        a: Cell::new(word(w[0])),
        b: word(w[1]),
        invoke: d[1] as usize,
        args,
        ret: d[at..at + n].to_vec(),
        owned,
        mutable,
        running: Cell::new(0),
        dropped: Cell::new(false),
    }))
}

unsafe fn bytes<'a>(w: &Words) -> &'a [u8] {
    let len = word(w[1]);
    if len == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(word(w[0]) as *const u8, len)
    }
}

/// From Rust to JavaScript.
unsafe fn to_js(d: &[u64], w: &Words) -> Value {
    match d[0] as u32 {
        I8 | I16 | I32 => Value::Num(w[0] as u32 as i32 as f64),
        U8 | U16 | U32 => Value::Num(w[0] as u32 as f64),
        I64 => Value::Big(w[0] as i64 as i128),
        U64 => Value::Big(w[0] as i128),
        I64_AS_F64 | U64_AS_F64 | F64 => Value::Num(f64::from_bits(w[0])),
        F32 => Value::Num(f32::from_bits(w[0] as u32) as f64),
        BOOLEAN => Value::Bool(w[0] as u32 != 0),
        CHAR => Value::str(
            char::from_u32(w[0] as u32)
                .expect("NATIVE: not a char")
                .to_string(),
        ),
        UNIT => Value::Undefined,
        STRING | CACHED_STRING => {
            // An owned string.
            let len = word(w[1]);
            let s = Value::str(std::str::from_utf8(bytes(w)).expect("NATIVE: not UTF-8"));
            drop(Vec::from_raw_parts(
                if len == 0 { 1 as *mut u8 } else { word(w[0]) as *mut u8 },
                len,
                len,
            ));
            s
        }
        EXTERNREF | NAMED_EXTERNREF => {
            let idx = w[0] as u32;
            let v = heap_get(idx);
            heap_drop(idx);
            v
        }
        REF | REFMUT | LONGREF => {
            let d = &d[1..];
            match d[0] as u32 {
                STRING | CACHED_STRING => {
                    Value::str(std::str::from_utf8(bytes(w)).expect("NATIVE: not UTF-8"))
                }
                EXTERNREF | NAMED_EXTERNREF => heap_get(w[0] as u32),
                SLICE if d[1] as u32 == U8 => {
                    Value::Bytes(Rc::new(RefCell::new(bytes(w).to_vec())))
                }
                FUNCTION => func(d, w, false, true),
                OPTIONAL => to_js_opt(&d[1..], w, true),
                _ => unsupported(&std::format!("reference argument {:?}", d)),
            }
        }
        OPTIONAL => to_js_opt(&d[1..], w, false),
        CLOSURE => func(&d[3..], w, d[1] != 0, d[2] != 0),
        SEQ_MODE => to_js(&d[2..], w),
        VECTOR => {
            let len = word(w[1]);
            let ptr = word(w[0]);
            match d[1] as u32 {
                EXTERNREF | NAMED_EXTERNREF => {
                    let items: Vec<Value> = if len == 0 {
                        Vec::new()
                    } else {
                        let v = Vec::from_raw_parts(ptr as *mut u32, len, len);
                        v.into_iter()
                            .map(|i| {
                                let r = heap_get(i);
                                heap_drop(i);
                                r
                            })
                            .collect()
                    };
                    Value::List(Rc::new(RefCell::new(items)))
                }
                U8 => {
                    let v = if len == 0 {
                        Vec::new()
                    } else {
                        Vec::from_raw_parts(ptr as *mut u8, len, len)
                    };
                    Value::Bytes(Rc::new(RefCell::new(v)))
                }
                _ => unsupported(&std::format!("vector argument {:?}", d)),
            }
        }
        _ => unsupported(&std::format!("argument {:?}", d)),
    }
}

unsafe fn to_js_opt(d: &[u64], w: &Words, by_ref: bool) -> Value {
    let none = match d[0] as u32 {
        I32 | U32 | F32 | I64_AS_F64 | U64_AS_F64 => {
            let f = f64::from_bits(w[0]);
            if f == 9007199254740991_f64 {
                return Value::Undefined;
            }
            return Value::Num(f);
        }
        F64 => {
            if w[0] as u32 == 0 {
                return Value::Undefined;
            }
            return Value::Num(f64::from_bits(w[1]));
        }
        I8 | U8 | I16 | U16 | BOOLEAN | CHAR => w[0] as u32 == 0x00FF_FFFF,
        EXTERNREF | NAMED_EXTERNREF => w[0] as u32 == 0,
        REF | REFMUT | LONGREF => match d[1] as u32 {
            EXTERNREF | NAMED_EXTERNREF => w[0] as u32 == 0,
            STRING | CACHED_STRING | SLICE => word(w[0]) == 0,
            _ => unsupported(&std::format!("optional reference {:?}", d)),
        },
        STRING | CACHED_STRING | VECTOR => word(w[0]) == 0,
        _ => unsupported(&std::format!("optional argument {:?}", d)),
    };
    if none {
        Value::Undefined
    } else if by_ref {
        let mut full = std::vec![REF as u64];
        full.extend_from_slice(d);
        to_js(&full, w)
    } else {
        to_js(d, w)
    }
}

fn number(v: &Value) -> f64 {
    match v {
        Value::Num(n) => *n,
        Value::Big(n) => *n as f64,
        Value::Bool(b) => *b as u8 as f64,
        Value::Null => 0.0,
        Value::Str(s) => s.trim().parse().unwrap_or(f64::NAN),
        _ => f64::NAN,
    }
}

pub fn truthy(v: &Value) -> bool {
    match v {
        Value::Undefined | Value::Null => false,
        Value::Bool(b) => *b,
        Value::Num(n) => *n != 0.0 && !n.is_nan(),
        Value::Big(n) => *n != 0,
        Value::Str(s) => !s.is_empty(),
        _ => true,
    }
}

fn to_int(v: &Value) -> u32 {
    let n = number(v);
    if n.is_finite() {
        n as i64 as u32
    } else {
        0
    }
}

fn string(v: &Value) -> Rc<str> {
    match v {
        Value::Str(s) => s.clone(),
        v => unsupported(&std::format!("{} where a string is expected", v.debug())),
    }
}

fn buffer(b: Vec<u8>) -> Words {
    let len = b.len();
    let ptr = if len == 0 {
        1
    } else {
        Box::into_raw(b.into_boxed_slice()) as *mut u8 as usize
    };
    [unword(ptr), unword(len), 0, 0]
}

/// From JavaScript to Rust. References (callback arguments) are put in the heap; the caller
/// releases them.
fn from_js(d: &[u64], v: Value, temporary: &mut Vec<u32>) -> Words {
    match d[0] as u32 {
        I8 | I16 | I32 | U8 | U16 | U32 => [to_int(&v) as u64, 0, 0, 0],
        I64 | U64 => match v {
            Value::Big(n) => [n as i64 as u64, 0, 0, 0],
            v => unsupported(&std::format!("{} where a BigInt is expected", v.debug())),
        },
        I64_AS_F64 | U64_AS_F64 | F64 => [number(&v).to_bits(), 0, 0, 0],
        F32 => [(number(&v) as f32).to_bits() as u64, 0, 0, 0],
        BOOLEAN => [truthy(&v) as u64, 0, 0, 0],
        CHAR => [string(&v).chars().next().map(|c| c as u64).unwrap_or(0), 0, 0, 0],
        UNIT => [0; 4],
        STRING | CACHED_STRING => buffer(string(&v).as_bytes().to_vec()),
        EXTERNREF | NAMED_EXTERNREF => [heap_put(v) as u64, 0, 0, 0],
        REF | REFMUT | LONGREF => match d[1] as u32 {
            EXTERNREF | NAMED_EXTERNREF => {
                let idx = heap_put(v);
                temporary.push(idx);
                [idx as u64, 0, 0, 0]
            }
            _ => unsupported(&std::format!("reference result {:?}", d)),
        },
        OPTIONAL => {
            let d = &d[1..];
            let none = v.is_nullish();
            match d[0] as u32 {
                I32 | U32 | F32 | I64_AS_F64 | U64_AS_F64 => {
                    let f = if none { 9007199254740991_f64 } else { number(&v) };
                    [f.to_bits(), 0, 0, 0]
                }
                F64 => {
                    if none {
                        [0; 4]
                    } else {
                        [1, number(&v).to_bits(), 0, 0]
                    }
                }
                I64 | U64 => match v {
                    Value::Big(n) => [1, n as i64 as u64, 0, 0],
                    _ => [0; 4],
                },
                I8 | U8 | I16 | U16 | BOOLEAN | CHAR if none => [0x00FF_FFFF, 0, 0, 0],
                _ if none => [0; 4],
                _ => from_js(d, v, temporary),
            }
        }
        RESULT => from_js(&d[1..], v, temporary),
        VECTOR => match (d[1] as u32, v) {
            (U8, Value::Bytes(b)) => buffer(b.borrow().clone()),
            (EXTERNREF | NAMED_EXTERNREF, Value::List(l)) => {
                let items: Vec<u32> = l.borrow().iter().map(|m| heap_put(m.clone())).collect();
                let len = items.len();
                let ptr = if len == 0 {
                    4
                } else {
                    Box::into_raw(items.into_boxed_slice()) as *mut u32 as usize
                };
                [unword(ptr), unword(len), 0, 0]
            }
            (_, v) => unsupported(&std::format!("vector result {}", v.debug())),
        },
        SEQ_MODE => from_js(&d[2..], v, temporary),
        _ => unsupported(&std::format!("result {:?}", d)),
    }
}

// ----------------------------------------------------------------- calls

/// The bits of an ABI primitive.
pub fn bits<P: WasmPrimitive>(p: P) -> u64 {
    let mut out = 0u64;
    let size = std::mem::size_of::<P>();
    assert!(size <= 8);
    unsafe {
        std::ptr::copy_nonoverlapping(
            &p as *const P as *const u8,
            &mut out as *mut u64 as *mut u8,
            size,
        );
    }
    out
}

fn unbits<P: WasmPrimitive>(w: u64) -> P {
    unsafe { std::mem::transmute_copy(&w) }
}

pub fn make_ret<A: WasmAbi>(w: Words) -> WasmRet<A> {
    WasmRet::from(A::join(
        unbits(w[0]),
        unbits(w[1]),
        unbits(w[2]),
        unbits(w[3]),
    ))
}

fn throw(v: Value) -> ! {
    std::panic::panic_any(std::format!("JS exception: {}", v.debug()))
}

/// Calls an import.
pub fn dispatch(import: &Import, args: &[fn()], words: &[u64], ret: Option<fn()>) -> Words {
    let mut values = Vec::with_capacity(args.len());
    for (i, a) in args.iter().enumerate() {
        let w: Words = words[i * 4..i * 4 + 4].try_into().unwrap();
        values.push(unsafe { to_js(&described(*a), &w) });
    }
    let out = if let Some(m) = intrinsic(import, &values) {
        m
    } else {
        let host = HOST
            .with(|m| m.borrow().clone())
            .unwrap_or_else(|| unsupported("no host"));
        host.call(import, values)
    };
    match out {
        Ok(v) => match ret {
            None => [0; 4],
            Some(d) => from_js(&described(d), v, &mut Vec::new()),
        },
        Err(e) => {
            if import.catch {
                unsafe { crate::__rt::__wbindgen_exn_store(heap_put(e)) };
                [0; 4]
            } else {
                throw(e)
            }
        }
    }
}

/// The cast between two types through JavaScript.
pub(crate) fn cast(from: fn(), to: fn(), words: Words) -> Words {
    let v = unsafe { to_js(&described(from), &words) };
    from_js(&described(to), v, &mut Vec::new())
}

fn intrinsic(import: &Import, a: &[Value]) -> Option<Result<Value, Value>> {
    if import.kind == Kind::Method && import.name == "_wbg_cb_unref" {
        if let Value::Func(f) = &a[0] {
            f.unref();
            return Some(Ok(Value::Undefined));
        }
    }
    if import.kind == Kind::Static {
        return import.name.strip_prefix('"').map(|m| Ok(Value::str(m)));
    }
    if import.kind != Kind::Function {
        return None;
    }
    let b = Value::Bool;
    Some(Ok(match import.name {
        "__wbindgen_externref_heap_live_count" => Value::Num(live() as f64),
        "__wbindgen_is_null" => b(matches!(a[0], Value::Null)),
        "__wbindgen_is_undefined" => b(matches!(a[0], Value::Undefined)),
        "__wbindgen_is_null_or_undefined" => b(a[0].is_nullish()),
        "__wbindgen_is_symbol" => b(false),
        "__wbindgen_is_object" => b(matches!(
            a[0],
            Value::Obj(_) | Value::List(_) | Value::Bytes(_)
        )),
        "__wbindgen_is_function" => b(matches!(a[0], Value::Func(_))),
        "__wbindgen_is_string" => b(matches!(a[0], Value::Str(_))),
        "__wbindgen_is_bigint" => b(matches!(a[0], Value::Big(_))),
        "__wbindgen_typeof" => Value::str(match a[0] {
            Value::Undefined => "undefined",
            Value::Bool(_) => "boolean",
            Value::Num(_) => "number",
            Value::Big(_) => "bigint",
            Value::Str(_) => "string",
            Value::Func(_) => "function",
            _ => "object",
        }),
        "__wbindgen_is_falsy" => b(!truthy(&a[0])),
        "__wbindgen_number_get" => match a[0] {
            Value::Num(n) => Value::Num(n),
            _ => Value::Undefined,
        },
        "__wbindgen_boolean_get" => match a[0] {
            Value::Bool(n) => b(n),
            _ => Value::Undefined,
        },
        "__wbindgen_string_get" => match &a[0] {
            Value::Str(s) => Value::Str(s.clone()),
            _ => Value::Undefined,
        },
        "__wbindgen_bigint_get_as_i64" => match a[0] {
            Value::Big(n) => Value::Big(n),
            _ => Value::Undefined,
        },
        "__wbindgen_string_from_utf8_lossy" => match &a[0] {
            Value::Bytes(m) => Value::str(String::from_utf8_lossy(&m.borrow())),
            _ => return None,
        },
        "__wbindgen_debug_string" => Value::str(a[0].debug()),
        "__wbindgen_throw" => std::panic::panic_any(string(&a[0]).to_string()),
        "__wbindgen_rethrow" => throw(a[0].clone()),
        "__wbindgen_jsval_eq" => b(a[0].same(&a[1])),
        "__wbindgen_jsval_loose_eq" => {
            b(a[0].same(&a[1]) || (a[0].is_nullish() && a[1].is_nullish()))
        }
        "__wbindgen_init_externref_table" => Value::Undefined,
        "__wbindgen_add" => match (&a[0], &a[1]) {
            (Value::Num(x), Value::Num(y)) => Value::Num(x + y),
            (Value::Str(x), Value::Str(y)) => Value::str([&**x, &**y].concat()),
            _ => return None,
        },
        _ => return None,
    }))
}

#[allow(improper_ctypes_definitions)]
mod sigs {
    use super::*;
    pub type F0<R> = unsafe extern "C-unwind" fn(WasmWord, WasmWord) -> WasmRet<R>;
    pub type F1<A, R> = unsafe extern "C-unwind" fn(
        WasmWord,
        WasmWord,
        A,
        (),
        (),
        (),
    ) -> WasmRet<R>;
    pub type F2<A, B, R> = unsafe extern "C-unwind" fn(
        WasmWord,
        WasmWord,
        A,
        (),
        (),
        (),
        B,
        (),
        (),
        (),
    ) -> WasmRet<R>;
}

impl Func {
    fn unref(self: &Rc<Self>) {
        self.dropped.set(true);
        if self.running.get() == 0 {
            self.destroy();
        }
    }

    fn destroy(&self) {
        let a = self.a.replace(0);
        if self.owned {
            unsafe {
                crate::closure::__wbindgen_destroy_closure(
                    WasmWord::from_usize(a),
                    WasmWord::from_usize(self.b),
                )
            }
        }
    }

    /// Whether the Rust closure behind this function is gone.
    pub fn is_dropped(&self) -> bool {
        self.dropped.get()
    }

    /// Calls the closure as JavaScript would.
    pub fn call(self: &Rc<Self>, args: &[Value]) -> Result<Value, Value> {
        if self.dropped.get() || (self.mutable && self.running.get() > 0) {
            return Err(Value::str(
                "closure invoked recursively or after being dropped",
            ));
        }
        let mut temporary = Vec::new();
        let mut words = Vec::new();
        let mut floats = Vec::new();
        for (i, d) in self.args.iter().enumerate() {
            let v = args.get(i).cloned().unwrap_or(Value::Undefined);
            words.push(from_js(d, v, &mut temporary));
            floats.push(match d[0] as u32 {
                F64 | U64_AS_F64 | I64_AS_F64 => true,
                I8 | U8 | I16 | U16 | I32 | U32 | BOOLEAN | EXTERNREF | NAMED_EXTERNREF | CHAR => {
                    false
                }
                REF | OPTIONAL
                    if matches!(d[1] as u32, EXTERNREF | NAMED_EXTERNREF) =>
                {
                    false
                }
                _ => unsupported(&std::format!("callback argument {:?}", d)),
            });
        }
        let unit = match self.ret[0] as u32 {
            UNIT => true,
            EXTERNREF | NAMED_EXTERNREF | BOOLEAN => false,
            _ => unsupported(&std::format!("callback result {:?}", self.ret)),
        };
        struct Guard<'a>(&'a Func, Vec<u32>);
        impl Drop for Guard<'_> {
            fn drop(&mut self) {
                self.0.running.set(self.0.running.get() - 1);
                if self.0.running.get() == 0 && self.0.dropped.get() {
                    self.0.destroy();
                }
                for i in self.1.drain(..) {
                    heap_drop(i);
                }
            }
        }
        self.running.set(self.running.get() + 1);
        let guard = Guard(self, temporary);
        let a = WasmWord::from_usize(self.a.get());
        let b = WasmWord::from_usize(self.b);
        let f = self.invoke;
        macro_rules! go {
            ($r:ty) => {
                unsafe {
                    match &floats[..] {
                        [] => std::mem::transmute::<usize, sigs::F0<$r>>(f)(a, b),
                        [false] => std::mem::transmute::<usize, sigs::F1<u32, $r>>(f)(
                            a,
                            b,
                            words[0][0] as u32,
                            (),
                            (),
                            (),
                        ),
                        [true] => std::mem::transmute::<usize, sigs::F1<f64, $r>>(f)(
                            a,
                            b,
                            f64::from_bits(words[0][0]),
                            (),
                            (),
                            (),
                        ),
                        [false, false] => std::mem::transmute::<usize, sigs::F2<u32, u32, $r>>(f)(
                            a,
                            b,
                            words[0][0] as u32,
                            (),
                            (),
                            (),
                            words[1][0] as u32,
                            (),
                            (),
                            (),
                        ),
                        _ => unsupported("callback signature"),
                    }
                }
            };
        }
        let out = if unit {
            go!(());
            Value::Undefined
        } else {
            let w: u32 = go!(u32).join();
            unsafe { to_js(&self.ret, &[w as u64, 0, 0, 0]) }
        };
        drop(guard);
        Ok(out)
    }
}
