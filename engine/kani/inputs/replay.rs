//! stdin: the size of the table, then hash start size per input; prints the table
#[allow(dead_code, unused)]
mod code {
    pub struct InputInfo { pub name: u64, pub dimensions: Vec<usize>, pub start: usize, pub size: usize, pub bus_id: Option<usize> }
    pub fn hasher(x: &u64) -> u64 { *x }
    include!("items.rs");
}
fn main() {
    let s = std::io::read_to_string(std::io::stdin()).unwrap();
    let v: Vec<u64> = s.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let l: Vec<_> = v[1..].chunks(3).map(|c| code::InputInfo { name: c[0], dimensions: vec![], start: c[1] as usize, size: c[2] as usize, bus_id: None }).collect();
    for e in code::generate_hash_map(&l, v[0] as usize) { println!("{} {} {}", e.0, e.1, e.2); }
}
