//! Harnesses: every text of K characters through the comment remover of /repo, against an automaton over single characters.
mod model;
#[allow(dead_code, unused)]
mod code {
    use crate::model::{Text as String, FileID, Report, ReportCollection, ReportCode, produce_report};
    #[allow(non_camel_case_types)]
    type str = crate::model::Str<{ crate::N }>;
    include!("items.rs");
}
const N: usize = @N@;
#[cfg(kani)]
mod comments {
    use super::model::*;
    use super::code::preprocess;
    use super::N;
    #[kani::proof]
    #[kani::unwind(@U@)]
    fn @H@() { blanks_comments::<N>(@A@) }
    fn blanks_comments<const K: usize>(ascii: bool) {
        let mut s = Str::<N> { c: ['a'; N], n: K };
        let mut i = 0;
        while i < K {
            let c: char = if ascii { let b: u8 = kani::any(); kani::assume(b < 128); b as char } else { kani::any() };
            s.c[i] = c;
            i += 1;
        }
        let got = preprocess(&s, 0);
        // the position in the output, and whether the output is as it should be so far
        let (mut i, mut mode, mut start, mut off, mut o) = (0, 0, 0, 0, 0);
        let text = match &got { Ok(t) => t.clone(), Err(_) => Text::new() };
        let mut good = true;
        while i < s.n {
            let c = s.c[i];
            let d = if i + 1 < s.n { s.c[i + 1] } else { '\0' };
            let mut keep = 1; // 1: kept, 0: blanked
            let mut two = false; // two characters at once
            match mode {
                0 if c == '/' && d == '/' => { mode = 1; keep = 0; two = true; }
                0 if c == '/' && d == '*' => { mode = 2; start = off; keep = 0; two = true; }
                0 => { if c == '"' { mode = 3; } }
                1 => { if c == '\n' { mode = 0; } else { keep = 0; } }
                2 => { keep = 0; if c == '*' && d == '/' { mode = 0; two = true; } }
                _ => { if c == '"' || c == '\n' { mode = 0; } }
            }
            let w = c.len_utf8() + if two { 1 } else { 0 };
            if keep == 1 { good &= o < text.n && text.c[o] == c; o += 1; }
            else {
                let mut k = 0;
                while k < 5 { if k < w { good &= o + k < text.n && text.c[o + k] == ' '; } k += 1; }
                o += w;
            }
            off += w;
            i += if two { 2 } else { 1 };
        }
        match got {
            Ok(t) => { assert!(mode != 2, "open comment accepted"); assert!(good && t.n == o, "text"); }
            Err(r) => { assert!(mode == 2, "closed comment rejected"); assert!(r.len() == 1 && r[0].0 == start, "position"); }
        }
        kani::cover!(mode == 2 && start > 0);
        kani::cover!(mode == 0 && o > K / 2);
    }
}
