//! Stand-in for `wasm-bindgen` that represents JavaScript values natively.

use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

pub mod sim;

pub use vp_wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::closure::Closure;
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt, wasm_bindgen};
}

pub mod closure {
    pub use crate::Closure;
}

/// A JavaScript value.
#[derive(Clone)]
#[repr(transparent)]
pub struct JsValue(Value);

#[derive(Clone)]
enum Value {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Text(Rc<str>),
    Object(Rc<dyn Any>),
}

impl JsValue {
    pub const NULL: JsValue = JsValue(Value::Null);
    pub const UNDEFINED: JsValue = JsValue(Value::Undefined);
    pub const TRUE: JsValue = JsValue(Value::Bool(true));
    pub const FALSE: JsValue = JsValue(Value::Bool(false));

    pub fn null() -> Self {
        Self::NULL
    }

    pub fn undefined() -> Self {
        Self::UNDEFINED
    }

    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        JsValue(Value::Text(Rc::from(s)))
    }

    pub fn from_f64(n: f64) -> Self {
        JsValue(Value::Number(n))
    }

    pub fn from_bool(b: bool) -> Self {
        JsValue(Value::Bool(b))
    }

    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Value::Text(t) => Some(t.to_string()),
            _ => None,
        }
    }

    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Value::Number(n) => Some(*n),
            _ => None,
        }
    }

    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Value::Bool(b) => Some(*b),
            _ => None,
        }
    }

    pub fn is_null(&self) -> bool {
        matches!(self.0, Value::Null)
    }

    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Value::Undefined)
    }

    pub fn is_string(&self) -> bool {
        matches!(self.0, Value::Text(_))
    }

    /// Wraps a native object.
    pub fn object<T: 'static>(o: T) -> Self {
        JsValue(Value::Object(Rc::new(o)))
    }

    /// Returns the native object of this value, if it is of the given type.
    pub fn native<T: 'static>(&self) -> Option<Rc<T>> {
        match &self.0 {
            Value::Object(o) => o.clone().downcast::<T>().ok(),
            _ => None,
        }
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Value::Undefined => write!(f, "JsValue(undefined)"),
            Value::Null => write!(f, "JsValue(null)"),
            Value::Bool(b) => write!(f, "JsValue({})", b),
            Value::Number(n) => write!(f, "JsValue({})", n),
            Value::Text(t) => write!(f, "JsValue({:?})", t),
            Value::Object(_) => write!(f, "JsValue(Object)"),
        }
    }
}

impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}

impl PartialEq for JsValue {
    fn eq(&self, other: &Self) -> bool {
        match (&self.0, &other.0) {
            (Value::Undefined, Value::Undefined) | (Value::Null, Value::Null) => true,
            (Value::Bool(a), Value::Bool(b)) => a == b,
            (Value::Number(a), Value::Number(b)) => a == b,
            (Value::Text(a), Value::Text(b)) => a == b,
            (Value::Object(a), Value::Object(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}

impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}

impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        Self::from_str(s)
    }
}

impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        Self::from_bool(b)
    }
}

macro_rules! numbers {
    ($($t:ty),*) => {
        $(impl From<$t> for JsValue {
            fn from(n: $t) -> Self {
                Self::from_f64(n as f64)
            }
        })*
    };
}
numbers!(f64, f32, i32, u32, i16, u16, u8, i8);

/// Casts between JavaScript types.  All of them have the representation of `JsValue`.
pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    /// Whether `v` is of this type.
    fn instanceof(v: &JsValue) -> bool;

    /// Converts a value unconditionally.
    fn unchecked_from_js(v: JsValue) -> Self;

    /// As above for references.
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;

    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }

    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }

    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() { Ok(self.unchecked_into()) } else { Err(self) }
    }

    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() { Some(self.unchecked_ref()) } else { None }
    }

    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }

    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}

impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }

    fn unchecked_from_js(v: JsValue) -> Self {
        v
    }

    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        v
    }
}

/// Defines a JavaScript type, whose values hold a native object of type `$native`.
#[macro_export]
macro_rules! js_type {
    ($(#[$m:meta])* $name:ident, $native:ty, $parent:ty) => {
        $(#[$m])*
        #[derive(Clone, Debug, PartialEq)]
        #[repr(transparent)]
        pub struct $name($parent);

        impl AsRef<$crate::JsValue> for $name {
            fn as_ref(&self) -> &$crate::JsValue {
                self.0.as_ref()
            }
        }

        impl From<$name> for $crate::JsValue {
            fn from(v: $name) -> $crate::JsValue {
                v.0.into()
            }
        }

        impl std::ops::Deref for $name {
            type Target = $parent;

            fn deref(&self) -> &$parent {
                &self.0
            }
        }

        impl $crate::JsCast for $name {
            fn instanceof(v: &$crate::JsValue) -> bool {
                v.native::<$native>().is_some()
            }

            fn unchecked_from_js(v: $crate::JsValue) -> Self {
                $name(<$parent as $crate::JsCast>::unchecked_from_js(v))
            }

            fn unchecked_from_js_ref(v: &$crate::JsValue) -> &Self {
                // SAFETY: All types are transparent wrappers of `JsValue`.
                unsafe { &*(v as *const $crate::JsValue as *const $name) }
            }
        }

        #[allow(dead_code)]
        impl $name {
            pub fn wrap(o: $native) -> Self {
                <$name as $crate::JsCast>::unchecked_from_js($crate::JsValue::object(o))
            }

            pub fn native(&self) -> std::rc::Rc<$native> {
                AsRef::<$crate::JsValue>::as_ref(self).native::<$native>().expect("Invalid type")
            }
        }
    };
}

/// A JavaScript error.
pub struct JsError(String);

impl JsError {
    pub fn new(s: &str) -> Self {
        JsError(s.to_owned())
    }
}

impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        JsValue::from_str(&e.0)
    }
}

/// An array whose contents are clamped.
#[derive(Clone, Debug, PartialEq)]
pub struct Clamped<T>(pub T);

impl<T> Deref for Clamped<T> {
    type Target = T;

    fn deref(&self) -> &T {
        &self.0
    }
}

impl<T> DerefMut for Clamped<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}

impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }

    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }

    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

/// Native side of a function that JavaScript can call, until the closure goes away.
pub struct Callback(RefCell<Option<Box<dyn FnMut(JsValue)>>>);

impl Callback {
    /// Calls the function.  Returns false if it no longer exists.
    pub fn call(&self, arg: JsValue) -> bool {
        let Some(mut f) = self.0.borrow_mut().take() else {
            return false;
        };
        f(arg);
        *self.0.borrow_mut() = Some(f);
        true
    }
}

/// Values that can be given to a closure.
pub trait FromArg {
    fn from_arg(v: JsValue) -> Self;
}

impl FromArg for f64 {
    fn from_arg(v: JsValue) -> Self {
        v.as_f64().expect("The argument is not a number")
    }
}

impl<T: JsCast> FromArg for T {
    fn from_arg(v: JsValue) -> Self {
        T::unchecked_from_js(v)
    }
}

/// Types of functions accepted by `Closure`.
pub trait WasmClosure {
    fn into_callback(f: Box<Self>) -> Box<dyn FnMut(JsValue)>;
}

impl WasmClosure for dyn FnMut() {
    fn into_callback(mut f: Box<Self>) -> Box<dyn FnMut(JsValue)> {
        Box::new(move |_| f())
    }
}

impl WasmClosure for dyn Fn() {
    fn into_callback(f: Box<Self>) -> Box<dyn FnMut(JsValue)> {
        Box::new(move |_| f())
    }
}

impl<A: FromArg + 'static> WasmClosure for dyn FnMut(A) {
    fn into_callback(mut f: Box<Self>) -> Box<dyn FnMut(JsValue)> {
        Box::new(move |a| f(A::from_arg(a)))
    }
}

impl<A: FromArg + 'static> WasmClosure for dyn Fn(A) {
    fn into_callback(f: Box<Self>) -> Box<dyn FnMut(JsValue)> {
        Box::new(move |a| f(A::from_arg(a)))
    }
}

/// Types that can be boxed into the type of function of a closure.
pub trait IntoWasmClosure<T: ?Sized> {
    fn boxed(self) -> Box<T>;
}

impl<F: FnMut() + 'static> IntoWasmClosure<dyn FnMut()> for F {
    fn boxed(self) -> Box<dyn FnMut()> {
        Box::new(self)
    }
}

impl<A: FromArg + 'static, F: FnMut(A) + 'static> IntoWasmClosure<dyn FnMut(A)> for F {
    fn boxed(self) -> Box<dyn FnMut(A)> {
        Box::new(self)
    }
}

/// A function given to JavaScript.
pub struct Closure<T: ?Sized> {
    js: JsValue,
    callback: Rc<Callback>,
    _type: std::marker::PhantomData<Box<T>>,
}

impl<T: ?Sized + WasmClosure> Closure<T> {
    pub fn wrap(f: Box<T>) -> Self {
        let callback = Rc::new(Callback(RefCell::new(Some(T::into_callback(f)))));
        let js = JsValue(Value::Object(callback.clone()));
        Closure { js, callback, _type: std::marker::PhantomData }
    }

    pub fn new<F: IntoWasmClosure<T>>(f: F) -> Self {
        Self::wrap(f.boxed())
    }

    pub fn forget(self) {
        std::mem::forget(self);
    }

    pub fn into_js_value(self) -> JsValue {
        let js = self.js.clone();
        std::mem::forget(self);
        js
    }
}

impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
    fn as_ref(&self) -> &JsValue {
        &self.js
    }
}

impl<T: ?Sized> Drop for Closure<T> {
    fn drop(&mut self) {
        if let Ok(mut f) = self.callback.0.try_borrow_mut() {
            *f = None;
        }
    }
}
