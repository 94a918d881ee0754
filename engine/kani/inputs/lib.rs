//! The input table generator of /repo over arbitrary hashes: where every entry lies.
#[allow(dead_code, unused)]
mod code {
    pub struct InputInfo { pub name: u64, pub dimensions: Vec<usize>, pub start: usize, pub size: usize, pub bus_id: Option<usize> }
    pub fn hasher(x: &u64) -> u64 { *x }
    include!("items.rs");
}
#[cfg(kani)]
mod inputs {
    use super::code::*;
    const N: usize = @N@;
    #[kani::proof]
    #[kani::unwind(@U@)]
    fn @H@() {
        let n: usize = @K@;
        let mut l = Vec::with_capacity(n);
        let (mut hs, mut st, mut sz) = ([0u64; N], [0usize; N], [0usize; N]);
        let mut i = 0;
        while i < n {
            let (h, s): (u64, u8) = (kani::any(), kani::any());
            kani::assume(h != 0);
            hs[i] = h; st[i] = 4 * i + 1; sz[i] = s as usize;
            let mut j = 0;
            while j < i { kani::assume(hs[i] != hs[j]); j += 1; }
            l.push(InputInfo { name: hs[i], dimensions: Vec::new(), start: st[i], size: sz[i], bus_id: None });
            i += 1;
        }
        let t = generate_hash_map(&l, N);
        assert!(t.len() == N, "table size");
        let mut used = 0;
        let mut k = 0;
        while k < N {
            let (h, s, z) = (t[k].0 as u64, t[k].1 as u64, t[k].2 as u64);
            if s != 0 {
                used += 1;
                // one of the inputs, with its own data
                let mut i = 0;
                let mut found = false;
                while i < N { if i < n && hs[i] == h { found = true; assert!(s == st[i] as u64 && z == sz[i] as u64, "data of an entry"); } i += 1; }
                assert!(found, "an entry that is no input");
                // no hole between its home and its place
                let mut p = (h % N as u64) as usize;
                let mut c = 0;
                while c < N { if p != k { assert!(t[p].1 != 0, "a hole before an entry"); p = (p + 1) % N; } c += 1; }
            } else { assert!(h == 0 && z == 0, "empty slot"); }
            k += 1;
        }
        assert!(used == n, "an input is missing from the table");
        kani::cover!(n < 2 || n == N || t[0].1 != 0 && t[0].0 % (N as u64) != 0);
    }
}
