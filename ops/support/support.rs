// Shared by the ops crates: textual argument/result codecs and the dispatch
// macro.  Every function declared through `ops!` is (1) a root whose MIR is
// dumped and verified and (2) callable on concrete inputs from the replay
// binary, so proof and replay exercise the same entry point.
use std::collections::BTreeMap;
pub trait Arg: Sized {
    fn parse(s: &str) -> Self;
}
pub trait Ret {
    fn show(&self) -> String;
}
pub type Table = BTreeMap<&'static str, Box<dyn Fn(&[&str]) -> String>>;

macro_rules! intarg {
    ($($t:ty),*) => {$(
        impl Arg for $t { fn parse(s: &str) -> Self { s.parse().unwrap() } }
        impl Ret for $t { fn show(&self) -> String { format!("{}", self) } }
    )*};
}
intarg!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Arg for bool { fn parse(s: &str) -> Self { s == "1" } }
impl Ret for bool { fn show(&self) -> String { (*self as u8).to_string() } }
impl Ret for () { fn show(&self) -> String { "()".into() } }
impl Ret for std::cmp::Ordering { fn show(&self) -> String { format!("{}", *self as i8) } }
impl<T: Ret> Ret for Option<T> {
    fn show(&self) -> String { match self { None => "None".into(), Some(x) => format!("Some({})", x.show()) } }
}
impl<T: Ret, E> Ret for Result<T, E> {
    fn show(&self) -> String { match self { Err(_) => "Err".into(), Ok(x) => format!("Ok({})", x.show()) } }
}
impl<T: Ret> Ret for Vec<T> {
    fn show(&self) -> String { format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")) }
}
impl<A: Ret, B: Ret> Ret for (A, B) { fn show(&self) -> String { format!("({},{})", self.0.show(), self.1.show()) } }
impl<A: Ret, B: Ret, C: Ret> Ret for (A, B, C) { fn show(&self) -> String { format!("({},{},{})", self.0.show(), self.1.show(), self.2.show()) } }
impl<A: Ret, B: Ret, C: Ret, D: Ret> Ret for (A, B, C, D) { fn show(&self) -> String { format!("({},{},{},{})", self.0.show(), self.1.show(), self.2.show(), self.3.show()) } }
fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim_start_matches('x');
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn tohex(b: &[u8]) -> String { let mut s = String::from("x"); for x in b { s += &format!("{:02x}", x); } s }
impl Arg for String { fn parse(s: &str) -> Self { String::from_utf8(unhex(s)).unwrap() } }
impl Ret for String { fn show(&self) -> String { tohex(self.as_bytes()) } }
#[derive(Clone)]
pub struct Bytes(pub Vec<u8>);
impl Arg for Bytes { fn parse(s: &str) -> Self { Bytes(unhex(s)) } }
impl Ret for Bytes { fn show(&self) -> String { tohex(&self.0) } }
impl<T: Arg> Arg for Vec<T> {
    fn parse(s: &str) -> Self {
        let s = s.trim_start_matches('[').trim_end_matches(']');
        if s.is_empty() { vec![] } else { s.split(',').map(T::parse).collect() }
    }
}
impl<T: Arg, const N: usize> Arg for [T; N] {
    fn parse(s: &str) -> Self {
        let v: Vec<T> = Vec::parse(s);
        match v.try_into() { Ok(a) => a, Err(_) => panic!("array length") }
    }
}
impl<T: Ret, const N: usize> Ret for [T; N] {
    fn show(&self) -> String { format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")) }
}

#[macro_export]
macro_rules! ops {
    ($($(#[$m:meta])* fn $name:ident($($a:ident: $t:ty),*) -> $r:ty $body:block)*) => {
        #[allow(unused_mut, unused_variables)]
        pub mod ops { use super::*; $(#[inline(never)] pub fn $name($(mut $a: $t),*) -> $r $body)* }
        #[allow(unused_mut, unused_variables)]
        pub fn table() -> $crate::support::Table {
            use $crate::support::{Arg, Ret};
            let mut t: $crate::support::Table = Default::default();
            $(t.insert(stringify!($name), Box::new(|args: &[&str]| {
                let mut i = 0;
                $(let $a = <$t as Arg>::parse(args[i]); i += 1;)*
                let _ = i;
                Ret::show(&ops::$name($($a),*))
            }));)*
            t
        }
    };
}

/// stdin: "op arg arg ..." per line; stdout: result or PANIC per line
pub fn serve(t: Table) {
    use std::io::{BufRead, Write};
    if std::env::var("VERBOSE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line == "FLUSH" { out.flush().unwrap(); continue; }
        let w: Vec<&str> = line.split(' ').collect();
        let r = match t.get(w[0]) {
            None => "NOOP".to_string(),
            Some(f) => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&w[1..]))) {
                Ok(s) => s,
                Err(_) => "PANIC".to_string(),
            },
        };
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
}
