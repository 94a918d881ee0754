//! Text of bounded length: stands for str and String in the code under test.
pub const CAP: usize = 21;
#[derive(Clone, Copy)]
pub struct Str<const N: usize> { pub c: [char; N], pub n: usize }
#[derive(Clone)]
pub struct Chars<const N: usize> { s: Str<N>, i: usize, off: usize }
impl<const N: usize> Iterator for Chars<N> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.i < self.s.n { let c = self.s.c[self.i]; self.i += 1; self.off += c.len_utf8(); Some(c) } else { None }
    }
}
#[derive(Clone)]
pub struct Indices<const N: usize>(Chars<N>);
impl<const N: usize> Iterator for Indices<N> {
    type Item = (usize, char);
    fn next(&mut self) -> Option<(usize, char)> { let o = self.0.off; self.0.next().map(|c| (o, c)) }
}
impl<const N: usize> Str<N> {
    pub fn chars(&self) -> Chars<N> { Chars { s: *self, i: 0, off: 0 } }
    pub fn char_indices(&self) -> Indices<N> { Indices(self.chars()) }
    pub fn len(&self) -> usize { let mut k = 0; for c in self.chars() { k += c.len_utf8(); } k }
    pub fn is_empty(&self) -> bool { self.n == 0 }
    pub fn starts_with(&self, p: char) -> bool { self.n > 0 && self.c[0] == p }
    pub fn ends_with(&self, p: char) -> bool { self.n > 0 && self.c[self.n - 1] == p }
    pub fn contains(&self, p: char) -> bool { self.chars().any(|c| c == p) }
}
#[derive(Clone)]
pub struct Text { pub c: [char; CAP], pub n: usize }
impl Text {
    pub fn new() -> Text { Text { c: [' '; CAP], n: 0 } }
    pub fn with_capacity(_: usize) -> Text { Text::new() }
    pub fn push(&mut self, c: char) { assert!(self.n < CAP); self.c[self.n] = c; self.n += 1; }
    pub fn push_str(&mut self, s: &core::primitive::str) { for c in s.chars() { self.push(c); } }
    pub fn pop(&mut self) -> Option<char> { if self.n == 0 { None } else { self.n -= 1; Some(self.c[self.n]) } }
    pub fn clear(&mut self) { self.n = 0; }
    pub fn extend<I: IntoIterator<Item = char>>(&mut self, it: I) { for c in it { self.push(c); } }
    pub fn len(&self) -> usize { self.n }
    pub fn is_empty(&self) -> bool { self.n == 0 }
}
impl core::ops::AddAssign<&core::primitive::str> for Text { fn add_assign(&mut self, s: &core::primitive::str) { self.push_str(s); } }
impl core::iter::FromIterator<char> for Text { fn from_iter<I: IntoIterator<Item = char>>(it: I) -> Text { let mut t = Text::new(); t.extend(it); t } }
impl Default for Text { fn default() -> Text { Text::new() } }
pub type FileID = usize;
pub struct Report(pub usize, pub usize);
pub type ReportCollection = Vec<Report>;
pub enum ReportCode { UnclosedComment }
pub fn produce_report(_: ReportCode, l: core::ops::Range<usize>, _: FileID) -> Report { Report(l.start, l.end) }
