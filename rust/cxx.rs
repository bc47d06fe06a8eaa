//! Stand-in for the `cxx` crate: what the code that bridge.py generates needs.
//! Values cross the language boundary as sequences of 64-bit words.
use std::marker::{PhantomData, PhantomPinned};
use std::pin::Pin;

#[repr(C)]
pub struct Opaque {
    _data: [u8; 0],
    _pin: PhantomData<PhantomPinned>,
}

#[derive(Debug)]
pub struct Exception {
    what: Box<str>,
}
impl Exception {
    pub fn what(&self) -> &str {
        &self.what
    }
}
impl std::fmt::Display for Exception {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.what)
    }
}
impl std::error::Error for Exception {}

/// What a C++ class declared in a bridge has to offer.
pub trait Target {
    fn drop_it(p: *mut Self);
}
pub struct UniquePtr<T: Target> {
    p: *mut T,
}
impl<T: Target> UniquePtr<T> {
    pub fn null() -> Self {
        UniquePtr { p: std::ptr::null_mut() }
    }
    pub fn is_null(&self) -> bool {
        self.p.is_null()
    }
    pub unsafe fn from_raw(p: *mut T) -> Self {
        UniquePtr { p }
    }
    pub fn as_ref(&self) -> Option<&T> {
        unsafe { self.p.as_ref() }
    }
    pub fn as_mut(&mut self) -> Option<Pin<&mut T>> {
        unsafe { self.p.as_mut().map(|x| Pin::new_unchecked(x)) }
    }
    pub fn pin_mut(&mut self) -> Pin<&mut T> {
        self.as_mut().expect("called pin_mut on a null UniquePtr")
    }
    pub fn as_ptr(&self) -> *const T {
        self.p
    }
}
impl<T: Target> std::ops::Deref for UniquePtr<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.as_ref().expect("called deref on a null UniquePtr")
    }
}
impl<T: Target> Drop for UniquePtr<T> {
    fn drop(&mut self) {
        if !self.p.is_null() {
            T::drop_it(self.p)
        }
    }
}

pub mod wire {
    pub trait Wire {
        fn put(&self, b: &mut Vec<u64>);
        fn get(r: &mut &[u64]) -> Self;
    }
    fn word(r: &mut &[u64]) -> u64 {
        let (a, b) = r.split_first().expect("short message");
        *r = b;
        *a
    }
    macro_rules! ints { ($($t:ty),*) => { $(impl Wire for $t {
        fn put(&self, b: &mut Vec<u64>) { b.push(*self as i128 as u64) }
        fn get(r: &mut &[u64]) -> Self { word(r) as $t }
    })* } }
    ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    impl Wire for f64 {
        fn put(&self, b: &mut Vec<u64>) { b.push(self.to_bits()) }
        fn get(r: &mut &[u64]) -> Self { f64::from_bits(word(r)) }
    }
    impl Wire for f32 {
        fn put(&self, b: &mut Vec<u64>) { (*self as f64).put(b) }
        fn get(r: &mut &[u64]) -> Self { f64::get(r) as f32 }
    }
    impl Wire for bool {
        fn put(&self, b: &mut Vec<u64>) { b.push(*self as u64) }
        fn get(r: &mut &[u64]) -> Self { word(r) != 0 }
    }
    impl Wire for () {
        fn put(&self, _: &mut Vec<u64>) {}
        fn get(_: &mut &[u64]) -> Self {}
    }
    impl<T: Wire> Wire for Vec<T> {
        fn put(&self, b: &mut Vec<u64>) { self.len().put(b); for x in self { x.put(b) } }
        fn get(r: &mut &[u64]) -> Self { let n = usize::get(r); (0..n).map(|_| T::get(r)).collect() }
    }
    impl Wire for String {
        fn put(&self, b: &mut Vec<u64>) { self.as_bytes().to_vec().put(b) }
        fn get(r: &mut &[u64]) -> Self { String::from_utf8_lossy(&Vec::<u8>::get(r)).into_owned() }
    }
}

extern "C" {
    fn vpx_free(p: *mut u64);
}
/// Takes over an answer: status word 0 and a value, or 1 and a message.
pub unsafe fn answer<T: wire::Wire>(p: *mut u64, n: usize) -> Result<T, Exception> {
    let v = std::slice::from_raw_parts(p, n).to_vec();
    vpx_free(p);
    let mut r = &v[1..];
    if v[0] == 0 {
        Ok(T::get(&mut r))
    } else {
        Err(Exception { what: <String as wire::Wire>::get(&mut r).into() })
    }
}
