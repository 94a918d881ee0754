#![allow(dead_code, unused)]
mod writer;
mod reader;
use circom_algebra::num_bigint::{BigInt, Sign};
use std::collections::HashMap;
use std::io::Read;
fn table() -> HashMap<String, u64> {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    s.lines().filter_map(|l| { let mut p = l.split_whitespace(); Some((p.next()?.to_string(), p.next()?.parse().ok()?)) }).collect()
}
fn look(k: String) -> u64 { static T: std::sync::OnceLock<HashMap<String, u64>> = std::sync::OnceLock::new(); *T.get_or_init(table).get(&k).unwrap_or(&0) }
fn name_(b: &[u8]) -> String { String::from_utf8(b.to_vec()).unwrap() }
fn path_() -> String { std::env::args().nth(1).unwrap() }
fn nd(k: u32) -> u64 { look(format!("w{}", k)) }
fn ndb(k: u32) -> u8 { look(format!("b{}", k)) as u8 }
fn arg(k: u32) -> usize { look(format!("a{}", k)) as usize }
macro_rules! same { ($c:expr, $m:expr) => { if !$c { println!("{}", $m); std::process::exit(1) } } }
include!("scenario.rs");
fn main() { scenario(arg(99) as u32); }
