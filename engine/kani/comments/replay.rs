//! The same items over the ordinary strings: the text of the counterexample on standard input, the result on standard output.
#[allow(dead_code, unused)]
mod code {
    pub type FileID = usize;
    pub struct Report(pub usize, pub usize);
    pub type ReportCollection = Vec<Report>;
    pub enum ReportCode { UnclosedComment }
    pub fn produce_report(_: ReportCode, l: core::ops::Range<usize>, _: FileID) -> Report { Report(l.start, l.end) }
    include!("items.rs");
}
fn main() {
    let s = std::io::read_to_string(std::io::stdin()).unwrap();
    match code::preprocess(&s, 0) {
        Ok(t) => println!("text {}", t.bytes().map(|b| format!("{:02x}", b)).collect::<String>()),
        Err(r) => println!("open {}", r.iter().map(|r| r.0.to_string()).collect::<Vec<_>>().join(",")),
    }
}
