//! Function contracts discharged by Kani (CBMC): `contract!` declares, for one function of /repo, its
//! precondition (`k::assume`) and postcondition (`ensure!`) over full-domain symbolic arguments.
//! Loop-free (or constant-width) code: the proof is complete, not bounded, unless `bounded` is in its name.
//! Compiled without Kani the same contracts run on concrete values: the replay of a counterexample.
#![allow(dead_code, unused_imports, unused_macros, clippy::all)]

#[cfg(kani)]
pub mod k {
    pub fn f32() -> f32 { kani::any() }
    pub fn u8() -> u8 { kani::any() }
    pub fn u16() -> u16 { kani::any() }
    pub fn u32() -> u32 { kani::any() }
    pub fn u64() -> u64 { kani::any() }
    pub fn i32() -> i32 { kani::any() }
    pub fn bool() -> bool { kani::any() }
    pub fn usize() -> usize { kani::any() }
    pub fn assume(b: bool) { kani::assume(b) }
}
#[cfg(not(kani))]
pub mod k {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { pub static INPUT: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()); }
    fn take<const N: usize>() -> [u8; N] {
        INPUT.with(|i| {
            let v = i.borrow_mut().pop_front().unwrap_or_default();
            let mut r = [0u8; N];
            for (a, b) in r.iter_mut().zip(v.iter()) { *a = *b; }
            r
        })
    }
    pub fn f32() -> f32 { f32::from_le_bytes(take::<4>()) }
    pub fn u8() -> u8 { take::<1>()[0] }
    pub fn u16() -> u16 { u16::from_le_bytes(take::<2>()) }
    pub fn u32() -> u32 { u32::from_le_bytes(take::<4>()) }
    pub fn u64() -> u64 { u64::from_le_bytes(take::<8>()) }
    pub fn i32() -> i32 { i32::from_le_bytes(take::<4>()) }
    pub fn usize() -> usize { u64::from_le_bytes(take::<8>()) as usize }
    pub fn bool() -> bool { take::<1>()[0] & 1 == 1 }
    pub fn assume(b: bool) { if !b { println!("ASSUMPTION-NOT-MET"); std::process::exit(0); } }
}

pub mod spec {
    use crate::k;
    pub const EPS: f32 = 1.0 / 32768.0;
    pub fn unit() -> f32 { let v = k::f32(); k::assume(v >= 0.0 && v <= 1.0); v }
    pub fn unit4() -> [f32; 4] { [unit(), unit(), unit(), unit()] }
    pub fn any4() -> [f32; 4] { [k::f32(), k::f32(), k::f32(), k::f32()] }
    pub fn any3a() -> [f32; 4] { [k::f32(), k::f32(), k::f32(), unit()] }
    pub fn num() -> f32 { let v = k::f32(); k::assume(!v.is_nan()); v }
    pub fn num4() -> [f32; 4] { [num(), num(), num(), num()] }
    pub fn finite() -> f32 { let v = k::f32(); k::assume(v.is_finite()); v }
    pub fn in01(v: f32) -> bool { v >= 0.0 && v <= 1.0 }
    /// in [0, 1] up to rounding
    pub fn near01(v: f32) -> bool { v >= -1e-6 && v <= 1.0 + 1e-6 }
    pub fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() }
    pub fn near(a: f32, b: f32, e: f32) -> bool { (a - b).abs() <= e }

    // Assumed contracts of the platform's maths library (Kani has no model of it)
    pub fn powf_contract(x: f32, y: f32) -> f32 {
        let r = k::f32();
        if x >= 0.0 && !x.is_nan() && !y.is_nan() { k::assume(r >= 0.0); }
        if x >= 0.0 && x <= 1.0 && y > 0.0 { k::assume(r <= 1.0); }
        if x >= 1.0 && y > 0.0 { k::assume(r >= 1.0); }
        if y == 1.0 && !x.is_nan() { k::assume(r == x); }
        if x == 0.0 && y > 0.0 { k::assume(r == 0.0); }
        if x == 1.0 { k::assume(r == 1.0); }
        r
    }
    pub fn sin_contract(x: f32) -> f32 {
        let r = k::f32();
        if x.is_finite() { k::assume(r >= -1.0 && r <= 1.0); }
        r
    }
    pub fn any_f32(_x: f32) -> f32 { k::f32() }
    pub fn any_f32_2(_x: f32, _y: f32) -> f32 { k::f32() }
}

macro_rules! ensure {
    ($e:expr) => { assert!($e, concat!("postcondition: ", stringify!($e))) };
    ($e:expr, $m:literal) => { assert!($e, concat!("postcondition: ", $m)) };
}
/// `contracts! { #[kani::...] fn name() { pre; call; post } ... }`
macro_rules! contracts {
    ($( $(#[$m:meta])* fn $n:ident() $b:block )*) => {
        $(
            $(#[cfg_attr(kani, $m)])*
            #[cfg_attr(kani, kani::proof)]
            pub fn $n() {
                let () = $b;
                #[cfg(kani)]
                kani::cover!(true, "reached");
            }
        )*
        pub fn run(name: &str) -> bool {
            match name { $( stringify!($n) => { $n(); true } )* _ => false }
        }
    };
}

#[cfg(feature = "c10")] pub mod c10;
#[cfg(feature = "c11")] pub mod c11;
#[cfg(feature = "c12")] pub mod c12;
#[cfg(feature = "c14")] pub mod c14;
#[cfg(feature = "c15")] pub mod c15;
#[cfg(feature = "c16")] pub mod c16;
#[cfg(feature = "c18")] pub mod c18;
#[cfg(feature = "c20")] pub mod c20;
#[cfg(feature = "c21")] pub mod c21;

pub fn run(name: &str) -> bool {
    #[cfg(feature = "c10")] if c10::run(name) { return true; }
    #[cfg(feature = "c11")] if c11::run(name) { return true; }
    #[cfg(feature = "c12")] if c12::run(name) { return true; }
    #[cfg(feature = "c14")] if c14::run(name) { return true; }
    #[cfg(feature = "c15")] if c15::run(name) { return true; }
    #[cfg(feature = "c16")] if c16::run(name) { return true; }
    #[cfg(feature = "c18")] if c18::run(name) { return true; }
    #[cfg(feature = "c20")] if c20::run(name) { return true; }
    #[cfg(feature = "c21")] if c21::run(name) { return true; }
    false
}
