//! Symbolic engine: hash-consed integer terms, path condition, decisions.
use num_traits::{One, Signed, ToPrimitive, Zero};
use real::BigInt as BI;
use real::ModInverse as RealModInverse;
use std::collections::BTreeMap;
// a hasher of its own: std's per-thread key counter must only be advanced by the code under test
type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, MutexGuard, OnceLock};

pub type Id = u32;
/// sorted atom ids (with repetition) -> coefficient in [1, p)
pub type Poly = BTreeMap<Vec<Id>, BI>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Const(BI),
    Sym(usize),
    Res(Vec<(Vec<Id>, BI)>),
    Add(Id, Id),
    Sub(Id, Id),
    Mul(Id, Id),
    Div(Id, Id), // truncated
    Rem(Id, Id), // truncated
    And(Id, Id),
    Or(Id, Id),
    Xor(Id, Id),
    Shl(Id, usize),
    Shr(Id, usize),
    Inv(Id), // modular inverse mod p, argument known nonzero mod p
}

pub struct Node {
    pub kind: Kind,
    pub lo: BI,
    pub hi: BI,
    pub res: Poly,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    PolyZero(Vec<(Vec<Id>, BI)>),
    Eq(Id, Id),
    Lt(Id, Id),
}

pub struct SymDecl {
    pub name: usize,
    pub hi: BI, // domain [0,hi]
}

struct Solver {
    _child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

pub struct Engine {
    pub active: bool,
    pub p: BI,
    pub small_p: Option<BI>,
    nodes: Vec<Node>,
    cons: HashMap<Kind, Id>,
    syms: Vec<SymDecl>,
    sym_node: HashMap<usize, Id>,
    doms: HashMap<usize, BI>,
    path: Vec<(Cond, bool, bool)>, // cond, outcome, free?
    known: HashMap<Cond, bool>,
    prefix: Vec<(bool, bool)>,
    models: Vec<HashMap<usize, BI>>,
    alts: Vec<(usize, HashMap<usize, BI>)>, // decision index to flip, model
    queries: u64,
    solver_ms: u128,
    unknowns: u64,
    aborted: Option<String>,
    max_decisions: usize,
    solver: Option<Solver>,
    out: Option<String>,
}

const PRIMES: [&str; 8] = [
    "21888242871839275222246405745257275088548364400416034343698204186575808495617",
    "52435875175126190479447740508185965837690552500527637822603658699938581184513",
    "18446744069414584321",
    "21888242871839275222246405745257275088696311157297823662689037894645226208583",
    "28948022309329048855892746252171976963363056481941560715954676764349967630337",
    "28948022309329048855892746252171976963363056481941647379679742748393362948097",
    "115792089210356248762697446949407573530086143415290314195533631308867097853951",
    "8444461749428370424248824938781546531375899335154063827935233455917409239041",
];
const LIT_BASE: &str = "9900990099009900990099000000";
const LIT_COUNT: u64 = 10000;
const TOK_BASE: &str = "99119911991199119911991100000000";
const TOK_COUNT: u64 = 100_000_000;

fn big(s: &str) -> BI {
    BI::parse_bytes(s.as_bytes(), 10).unwrap()
}

pub fn lit_base() -> &'static BI {
    static B: OnceLock<BI> = OnceLock::new();
    B.get_or_init(|| big(LIT_BASE))
}
pub fn tok_base() -> &'static BI {
    static B: OnceLock<BI> = OnceLock::new();
    B.get_or_init(|| big(TOK_BASE))
}
fn primes() -> &'static Vec<BI> {
    static B: OnceLock<Vec<BI>> = OnceLock::new();
    B.get_or_init(|| PRIMES.iter().map(|s| big(s)).collect())
}

pub fn sym_token_range() -> (BI, BI) {
    (tok_base().clone(), tok_base() + BI::from(TOK_COUNT))
}
pub fn symx_active() -> bool {
    *active()
}

static ENGINE: OnceLock<Mutex<Engine>> = OnceLock::new();
static ACTIVE: OnceLock<bool> = OnceLock::new();
static SMALLP: OnceLock<Option<BI>> = OnceLock::new();

fn active() -> &'static bool {
    ACTIVE.get_or_init(|| std::env::var("SYMX").map(|v| v == "1").unwrap_or(false))
}
pub fn small_p() -> &'static Option<BI> {
    SMALLP.get_or_init(|| std::env::var("SYMX_P").ok().map(|s| big(&s)))
}

extern "C" {
    fn atexit(cb: extern "C" fn()) -> i32;
}
extern "C" fn at_exit() {
    if let Some(m) = ENGINE.get() {
        let e = match m.lock() {
            Ok(e) => e,
            Err(p) => p.into_inner(),
        };
        e.dump();
    }
}

/// Deterministic HashMap keys: std takes them from getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    static SEED: OnceLock<u64> = OnceLock::new();
    static CTR: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    // no allocation through HashMap here
    let seed = *SEED.get_or_init(|| {
        std::env::var("SYMX_HASHSEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
    });
    let mut x = seed
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(CTR.fetch_add(1, std::sync::atomic::Ordering::SeqCst))
        | 1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    len as isize
}

pub fn engine() -> MutexGuard<'static, Engine> {
    let m = ENGINE.get_or_init(|| {
        let e = Engine::from_env();
        unsafe {
            atexit(at_exit);
        }
        Mutex::new(e)
    });
    match m.lock() {
        Ok(e) => e,
        Err(p) => p.into_inner(),
    }
}

pub fn map_prime(n: BI) -> BI {
    static NOMAP: OnceLock<bool> = OnceLock::new();
    if *NOMAP.get_or_init(|| std::env::var("SYMX_NOMAP").is_ok()) {
        return n; // the program's own primes (C36)
    }
    if let Some(sp) = small_p() {
        if primes().iter().any(|p| p == &n) {
            return sp.clone();
        }
    }
    n
}

fn rng(x: &mut u64) -> u64 {
    *x ^= *x << 13;
    *x ^= *x >> 7;
    *x ^= *x << 17;
    *x
}

pub fn mod_floor(a: &BI, m: &BI) -> BI {
    let r = a % m;
    if r.is_negative() {
        r + m
    } else {
        r
    }
}

enum Sat {
    Sat(HashMap<usize, BI>),
    Unsat,
    Unknown,
}

impl Engine {
    fn from_env() -> Engine {
        let p = small_p().clone().unwrap_or_else(|| big(PRIMES[0]));
        let mut doms = HashMap::default();
        if let Ok(s) = std::env::var("SYMX_DOM") {
            // "id:hi,id:hi"
            for part in s.split(',').filter(|x| !x.is_empty()) {
                let (a, b) = part.split_once(':').unwrap();
                doms.insert(a.parse().unwrap(), big(b));
            }
        }
        let mut prefix = vec![];
        if let Ok(f) = std::env::var("SYMX_PREFIX") {
            for c in f.chars() {
                prefix.push(match c {
                    'T' => (true, true),
                    'F' => (false, true),
                    't' => (true, false),
                    'f' => (false, false),
                    _ => continue,
                });
            }
        }
        let mut e = Engine {
            active: *active(),
            p,
            small_p: small_p().clone(),
            nodes: vec![],
            cons: HashMap::default(),
            syms: vec![],
            sym_node: HashMap::default(),
            doms,
            path: vec![],
            known: HashMap::default(),
            prefix,
            models: vec![],
            alts: vec![],
            queries: 0,
            solver_ms: 0,
            unknowns: 0,
            aborted: None,
            max_decisions: std::env::var("SYMX_MAXDEC").ok().and_then(|s| s.parse().ok()).unwrap_or(400),
            solver: None,
            out: std::env::var("SYMX_OUT").ok(),
        };
        // initial model handed by the driver for this prefix
        let mut given = None;
        if let Ok(s) = std::env::var("SYMX_MODEL") {
            let mut m = HashMap::default();
            for part in s.split(',').filter(|x| !x.is_empty()) {
                let (a, b) = part.split_once(':').unwrap();
                m.insert(a.parse().unwrap(), big(b));
            }
            given = Some(m);
        }
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut x = seed.wrapping_mul(0x2545F4914F6CDD1D) | 1;
        let ids: Vec<usize> = {
            let mut v: Vec<usize> = e.doms.keys().cloned().collect();
            v.sort();
            v
        };
        if let Some(m) = given {
            e.models.push(m);
        }
        for _ in 0..4 {
            let mut m = HashMap::default();
            for i in &ids {
                let hi = &e.doms[i] + BI::one();
                let mut v = BI::zero();
                for _ in 0..5 {
                    v = (v << 60) + BI::from(rng(&mut x) >> 4);
                }
                m.insert(*i, v % hi);
            }
            e.models.push(m);
        }
        e
    }

    // ---------- terms ----------
    pub fn node(&self, id: Id) -> &Node {
        &self.nodes[id as usize]
    }
    pub fn range(&self, id: Id) -> (BI, BI) {
        let n = self.node(id);
        (n.lo.clone(), n.hi.clone())
    }
    fn intern(&mut self, kind: Kind, lo: BI, hi: BI, res: Option<Poly>) -> Id {
        if let Some(i) = self.cons.get(&kind) {
            return *i;
        }
        let id = self.nodes.len() as Id;
        let res = res.unwrap_or_else(|| {
            let mut m = Poly::new();
            m.insert(vec![id], BI::one());
            m
        });
        self.nodes.push(Node { kind: kind.clone(), lo, hi, res });
        self.cons.insert(kind, id);
        id
    }
    pub fn konst(&mut self, n: &BI) -> Id {
        let mut res = Poly::new();
        let r = mod_floor(n, &self.p);
        if !r.is_zero() {
            res.insert(vec![], r);
        }
        self.intern(Kind::Const(n.clone()), n.clone(), n.clone(), Some(res))
    }
    pub fn sym(&mut self, name: usize) -> Id {
        if let Some(i) = self.sym_node.get(&name) {
            return *i;
        }
        let hi = self.doms.get(&name).cloned().unwrap_or_else(|| &self.p - BI::one());
        let idx = self.syms.len();
        self.syms.push(SymDecl { name, hi: hi.clone() });
        let id = self.intern(Kind::Sym(idx), BI::zero(), hi.clone(), None);
        self.sym_node.insert(name, id);
        for m in self.models.iter_mut() {
            m.entry(name).or_insert_with(BI::zero);
        }
        if self.models.is_empty() {
            self.models.push(HashMap::default());
            self.models[0].insert(name, BI::zero());
        }
        id
    }
    pub fn as_const(&self, id: Id) -> Option<BI> {
        let n = self.node(id);
        if n.lo == n.hi {
            Some(n.lo.clone())
        } else {
            None
        }
    }
    fn padd(&self, a: &Poly, b: &Poly, neg: bool) -> Poly {
        let mut r = a.clone();
        for (m, c) in b {
            let old = r.remove(m).unwrap_or_else(BI::zero);
            let v = mod_floor(&(if neg { old - c } else { old + c }), &self.p);
            if !v.is_zero() {
                r.insert(m.clone(), v);
            }
        }
        r
    }
    fn mono_mul(&self, a: &[Id], b: &[Id]) -> Vec<Id> {
        let mut v: Vec<Id> = a.iter().chain(b.iter()).cloned().collect();
        v.sort();
        // x * inv(x) = 1
        loop {
            let mut found = None;
            'o: for (i, x) in v.iter().enumerate() {
                if let Kind::Inv(y) = self.node(*x).kind {
                    for (j, z) in v.iter().enumerate() {
                        if *z == y {
                            found = Some((i, j));
                            break 'o;
                        }
                    }
                }
            }
            match found {
                Some((i, j)) => {
                    let (a, b) = if i > j { (i, j) } else { (j, i) };
                    v.remove(a);
                    v.remove(b);
                }
                None => break,
            }
        }
        v
    }
    fn pmul(&self, a: &Poly, b: &Poly) -> Poly {
        let mut r = Poly::new();
        for (m, c) in a {
            for (n, d) in b {
                let mn = self.mono_mul(m, n);
                let old = r.remove(&mn).unwrap_or_else(BI::zero);
                let v = mod_floor(&(old + c * d), &self.p);
                if !v.is_zero() {
                    r.insert(mn, v);
                }
            }
        }
        r
    }
    fn in_field(&self, id: Id) -> bool {
        let n = self.node(id);
        !n.lo.is_negative() && n.hi < self.p
    }
    pub fn mk_res(&mut self, poly: Poly) -> Id {
        if poly.is_empty() {
            return self.konst(&BI::zero());
        }
        if poly.len() == 1 {
            let (m, c) = poly.iter().next().unwrap();
            if m.is_empty() {
                let c = c.clone();
                return self.konst(&c);
            }
            if m.len() == 1 && c.is_one() && self.in_field(m[0]) {
                return m[0];
            }
        }
        // keep polynomials from exploding: beyond a size, name the residue by an opaque product
        let k = Kind::Res(poly.iter().map(|(a, b)| (a.clone(), b.clone())).collect());
        let hi = &self.p - BI::one();
        self.intern(k, BI::zero(), hi, Some(poly))
    }
    pub fn residue(&mut self, a: Id) -> Id {
        if self.in_field(a) {
            return a;
        }
        let r = self.node(a).res.clone();
        self.mk_res(r)
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if al.is_zero() && ah.is_zero() {
            return b;
        }
        if bl.is_zero() && bh.is_zero() {
            return a;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let res = self.padd(&self.node(a).res, &self.node(b).res, false);
        let (lo, hi) = (al + bl, ah + bh);
        if lo == hi {
            return self.konst(&lo);
        }
        self.intern(Kind::Add(a, b), lo, hi, Some(res))
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if bl.is_zero() && bh.is_zero() {
            return a;
        }
        if a == b {
            return self.konst(&BI::zero());
        }
        let res = self.padd(&self.node(a).res, &self.node(b).res, true);
        let (lo, hi) = (al - bh, ah - bl);
        if lo == hi {
            return self.konst(&lo);
        }
        self.intern(Kind::Sub(a, b), lo, hi, Some(res))
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        for (l, h, o) in [(&al, &ah, b), (&bl, &bh, a)] {
            if l == h {
                if l.is_zero() {
                    return self.konst(&BI::zero());
                }
                if l.is_one() {
                    return o;
                }
            }
        }
        let c = [&al * &bl, &al * &bh, &ah * &bl, &ah * &bh];
        let lo = c.iter().min().unwrap().clone();
        let hi = c.iter().max().unwrap().clone();
        if lo == hi {
            return self.konst(&lo);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let pa = &self.node(a).res;
        let pb = &self.node(b).res;
        let degree = |p: &Poly| p.keys().map(|m| m.len()).max().unwrap_or(0);
        let res = if degree(pa) + degree(pb) <= 10 && pa.len() * pb.len() <= 400 {
            Some(self.pmul(pa, pb))
        } else {
            None
        };
        self.intern(Kind::Mul(a, b), lo, hi, res)
    }
    /// truncated remainder, divisor known nonzero
    pub fn rem(&mut self, a: Id, b: Id) -> Id {
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(&(x % y));
        }
        if bl.is_positive() && ah < bl && al > -bl.clone() {
            return a;
        }
        if let Some(c) = self.as_const(b) {
            if c == self.p {
                if !al.is_negative() {
                    return self.residue(a);
                }
                let res = self.node(a).res.clone();
                let m = &self.p - BI::one();
                let hi = if ah.is_negative() { BI::zero() } else { m.clone() };
                return self.intern(Kind::Rem(a, b), -m, hi, Some(res));
            }
        }
        let m = std::cmp::max(bl.abs(), bh.abs()) - BI::one();
        let lo = if al.is_negative() { std::cmp::max(-m.clone(), al) } else { BI::zero() };
        let hi = if ah.is_positive() { std::cmp::min(m, ah) } else { BI::zero() };
        self.intern(Kind::Rem(a, b), lo, hi, None)
    }
    pub fn div(&mut self, a: Id, b: Id) -> Id {
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(&(x / y));
        }
        if let Some(c) = self.as_const(b) {
            if c.is_one() {
                return a;
            }
        }
        let (lo, hi) = if !al.is_negative() && bl.is_positive() {
            (&al / &bh, &ah / &bl)
        } else {
            let m = std::cmp::max(al.abs(), ah.abs());
            (-m.clone(), m)
        };
        if lo == hi {
            return self.konst(&lo);
        }
        self.intern(Kind::Div(a, b), lo, hi, None)
    }
    fn pow2m1(n: &BI) -> BI {
        (BI::one() << n.bits()) - BI::one()
    }
    pub fn bitop(&mut self, which: u8, a: Id, b: Id) -> Id {
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let (lo, hi) = if !al.is_negative() && !bl.is_negative() {
            match which {
                0 => (BI::zero(), std::cmp::min(ah, bh)),
                1 => (std::cmp::max(al, bl), Self::pow2m1(&std::cmp::max(ah, bh))),
                _ => (BI::zero(), Self::pow2m1(&std::cmp::max(ah, bh))),
            }
        } else {
            let m = Self::pow2m1(&[al.abs(), ah.abs(), bl.abs(), bh.abs()].iter().max().unwrap().clone()) + BI::one();
            (-m.clone(), m)
        };
        let k = match which {
            0 => Kind::And(a, b),
            1 => Kind::Or(a, b),
            _ => Kind::Xor(a, b),
        };
        self.intern(k, lo, hi, None)
    }
    pub fn shl(&mut self, a: Id, k: usize) -> Id {
        if k > 4096 {
            self.abort("symbolic left shift by more than 4096");
        }
        let c = self.konst(&(BI::one() << k));
        self.mul(a, c)
    }
    pub fn shr(&mut self, a: Id, k: usize) -> Id {
        let (al, ah) = self.range(a);
        self.intern(Kind::Shr(a, k), al >> k, ah >> k, None)
    }
    /// modular inverse modulo p of a value known to be nonzero mod p
    pub fn inv(&mut self, a: Id) -> Id {
        let a = self.residue(a);
        if let Some(c) = self.as_const(a) {
            let p = self.p.clone();
            let v = (&c).mod_inverse(&p).expect("inverse of zero");
            return self.konst(&mod_floor(&v, &p));
        }
        if let Kind::Inv(x) = self.node(a).kind {
            return x;
        }
        let res = self.node(a).res.clone();
        // monic normalisation: inv(c*q) = c^-1 * inv(q)
        let lead = res.iter().next_back().unwrap().1.clone();
        if !lead.is_one() {
            let p = self.p.clone();
            let li = mod_floor(&(&lead).mod_inverse(&p).unwrap(), &p);
            let mut lp = Poly::new();
            lp.insert(vec![], li);
            let q = self.pmul(&res, &lp);
            let q = self.mk_res(q);
            let iq = self.inv(q);
            let r = self.pmul(&self.node(iq).res.clone(), &lp);
            return self.mk_res(r);
        }
        let hi = &self.p - BI::one();
        self.intern(Kind::Inv(a), BI::one(), hi, None)
    }

    // ---------- evaluation under a model ----------
    pub fn eval(&self, id: Id, m: &HashMap<usize, BI>, memo: &mut HashMap<Id, BI>) -> Option<BI> {
        if let Some(v) = memo.get(&id) {
            return Some(v.clone());
        }
        let n = self.node(id);
        let v = match &n.kind {
            Kind::Const(c) => c.clone(),
            Kind::Sym(i) => m.get(&self.syms[*i].name).cloned().unwrap_or_else(BI::zero),
            Kind::Res(p) => self.eval_poly(p, m, memo)?,
            Kind::Add(a, b) => self.eval(*a, m, memo)? + self.eval(*b, m, memo)?,
            Kind::Sub(a, b) => self.eval(*a, m, memo)? - self.eval(*b, m, memo)?,
            Kind::Mul(a, b) => self.eval(*a, m, memo)? * self.eval(*b, m, memo)?,
            Kind::Div(a, b) => {
                let d = self.eval(*b, m, memo)?;
                if d.is_zero() {
                    return None;
                }
                self.eval(*a, m, memo)? / d
            }
            Kind::Rem(a, b) => {
                let d = self.eval(*b, m, memo)?;
                if d.is_zero() {
                    return None;
                }
                self.eval(*a, m, memo)? % d
            }
            Kind::And(a, b) => self.eval(*a, m, memo)? & self.eval(*b, m, memo)?,
            Kind::Or(a, b) => self.eval(*a, m, memo)? | self.eval(*b, m, memo)?,
            Kind::Xor(a, b) => self.eval(*a, m, memo)? ^ self.eval(*b, m, memo)?,
            Kind::Shl(a, k) => self.eval(*a, m, memo)? << *k,
            Kind::Shr(a, k) => self.eval(*a, m, memo)? >> *k,
            Kind::Inv(a) => {
                let x = mod_floor(&self.eval(*a, m, memo)?, &self.p);
                if x.is_zero() {
                    return None;
                }
                mod_floor(&(&x).mod_inverse(&self.p)?, &self.p)
            }
        };
        memo.insert(id, v.clone());
        Some(v)
    }
    fn eval_poly(&self, p: &[(Vec<Id>, BI)], m: &HashMap<usize, BI>, memo: &mut HashMap<Id, BI>) -> Option<BI> {
        let mut s = BI::zero();
        for (mono, c) in p {
            let mut t = c.clone();
            for a in mono {
                t = mod_floor(&(t * self.eval(*a, m, memo)?), &self.p);
            }
            s += t;
        }
        Some(mod_floor(&s, &self.p))
    }
    fn eval_cond(&self, c: &Cond, m: &HashMap<usize, BI>) -> Option<bool> {
        let mut memo = HashMap::default();
        match c {
            Cond::PolyZero(p) => Some(self.eval_poly(p, m, &mut memo)?.is_zero()),
            Cond::Eq(a, b) => Some(self.eval(*a, m, &mut memo)? == self.eval(*b, m, &mut memo)?),
            Cond::Lt(a, b) => Some(self.eval(*a, m, &mut memo)? < self.eval(*b, m, &mut memo)?),
        }
    }

    // ---------- SMT ----------
    fn bvconst(w: usize, n: &BI) -> String {
        let m: BI = BI::one() << w;
        format!("(_ bv{} {})", mod_floor(n, &m), w)
    }
    fn collect(&self, id: Id, seen: &mut Vec<bool>, order: &mut Vec<Id>) {
        if seen[id as usize] {
            return;
        }
        seen[id as usize] = true;
        match &self.node(id).kind {
            Kind::Const(_) | Kind::Sym(_) => {}
            Kind::Res(p) => {
                for (m, _) in p {
                    for a in m {
                        self.collect(*a, seen, order);
                    }
                }
            }
            Kind::Add(a, b) | Kind::Sub(a, b) | Kind::Mul(a, b) | Kind::Div(a, b) | Kind::Rem(a, b)
            | Kind::And(a, b) | Kind::Or(a, b) | Kind::Xor(a, b) => {
                self.collect(*a, seen, order);
                self.collect(*b, seen, order);
            }
            Kind::Shl(a, _) | Kind::Shr(a, _) | Kind::Inv(a) => self.collect(*a, seen, order),
        }
        order.push(id);
    }
    fn sconst(w: usize, n: &BI) -> String {
        let m = BI::one() << w;
        Self::bvconst(w, &mod_floor(n, &m))
    }
    /// a linear polynomial whose integer value, with signed coefficients, stays within a
    /// few multiples of p (large fields only): (sum, lo, hi)
    fn small(&self, w: usize, p: &[(Vec<Id>, BI)], scales: &[BI]) -> Option<(String, BI, BI)> {
        if self.p.bits() < 20 || p.iter().any(|(m, _)| m.len() > 1) {
            return None;
        }
        let half = &self.p >> 1usize;
        let mut best: Option<(BI, Vec<(Option<Id>, BI)>)> = None;
        for k in scales {
            let mut cs = vec![];
            let mut t = BI::zero();
            for (m, c) in p {
                let mut c = mod_floor(&(c * k), &self.p);
                if c > half {
                    c = c - &self.p;
                }
                if !m.is_empty() {
                    t = t + c.abs();
                }
                cs.push((m.first().copied(), c));
            }
            if best.as_ref().map(|b| t < b.0).unwrap_or(true) {
                best = Some((t, cs));
            }
        }
        let (t, cs) = best?;
        if t > BI::from(8) {
            return None;
        }
        let mut lo = BI::zero();
        let mut hi = BI::zero();
        let mut acc = Self::bvconst(w, &BI::zero());
        for (a, c) in &cs {
            match a {
                None => {
                    lo = lo + c;
                    hi = hi + c;
                    acc = format!("(bvadd {} {})", acc, Self::sconst(w, c));
                }
                Some(a) => {
                    let n = self.node(*a);
                    if c.is_negative() {
                        lo = lo + c * &n.hi;
                        hi = hi + c * &n.lo;
                    } else {
                        lo = lo + c * &n.lo;
                        hi = hi + c * &n.hi;
                    }
                    acc = format!("(bvadd {} (bvmul {} n{}))", acc, Self::sconst(w, c), a);
                }
            }
        }
        if &hi - &lo > &self.p * BI::from(16) {
            return None;
        }
        Some((acc, lo, hi))
    }
    fn floor_div(a: &BI, m: &BI) -> BI {
        (a - mod_floor(a, m)) / m
    }
    fn smt_polyzero(&self, w: usize, p: &[(Vec<Id>, BI)]) -> String {
        if self.p.bits() >= 20 {
            if p.len() == 1 && !p[0].0.is_empty() && p[0].0.iter().all(|a| self.in_field(*a)) {
                let z = Self::bvconst(w, &BI::zero());
                let t: Vec<String> = p[0].0.iter().map(|a| format!("(= n{} {})", a, z)).collect();
                return format!("(or false {})", t.join(" "));
            }
            let at: Vec<&(Vec<Id>, BI)> = p.iter().filter(|x| !x.0.is_empty()).collect();
            let mut scales: Vec<BI> = (1..6).map(BI::from).collect();
            for x in &at {
                if let Some(i) = (&x.1).mod_inverse(&self.p) {
                    scales.push(mod_floor(&i, &self.p));
                }
            }
            if let Some((v, lo, hi)) = self.small(w, p, &scales) {
                let mut t = String::new();
                let mut k = -Self::floor_div(&(-&lo), &self.p);
                let top = Self::floor_div(&hi, &self.p);
                while k <= top {
                    t.push_str(&format!(" (= zz {})", Self::sconst(w, &(&k * &self.p))));
                    k = k + BI::one();
                }
                return format!("(let ((zz {})) (or false{}))", v, t);
            }
        }
        format!("(= {} {})", self.smt_poly(w, p), Self::bvconst(w, &BI::zero()))
    }
    fn smt_poly(&self, w: usize, p: &[(Vec<Id>, BI)]) -> String {
        let pp = Self::bvconst(w, &self.p);
        if let Some((v, lo, hi)) = self.small(w, p, &[BI::one()]) {
            let (klo, khi) = (Self::floor_div(&lo, &self.p), Self::floor_div(&hi, &self.p));
            let mut r = format!("(bvsub zz {})", Self::sconst(w, &(&khi * &self.p)));
            let mut k = khi;
            while k > klo {
                r = format!(
                    "(ite (bvslt zz {}) (bvsub zz {}) {})",
                    Self::sconst(w, &(&k * &self.p)),
                    Self::sconst(w, &((&k - BI::one()) * &self.p)),
                    r
                );
                k = k - BI::one();
            }
            return format!("(let ((zz {})) {})", v, r);
        }
        let mut acc = Self::bvconst(w, &BI::zero());
        for (mono, c) in p {
            let mut t = Self::bvconst(w, c);
            let mut first = c.is_one();
            for a in mono {
                // atoms may lie outside [0,p): reduce them first
                let an = if self.in_field(*a) {
                    format!("n{}", a)
                } else {
                    format!("(bvsmod n{} {})", a, pp)
                };
                if first {
                    t = an;
                    first = false;
                } else {
                    t = format!("(bvurem (bvmul {} {}) {})", t, an, pp);
                }
            }
            acc = format!("(bvadd {} {})", acc, t);
        }
        format!("(bvurem {} {})", acc, pp)
    }
    fn smt(&self, conds: &[(Cond, bool)]) -> String {
        let mut seen = vec![false; self.nodes.len()];
        let mut order = vec![];
        let mut width = 2 * self.p.bits() + 6;
        for (c, _) in conds {
            match c {
                Cond::PolyZero(p) => {
                    for (m, _) in p {
                        for a in m {
                            self.collect(*a, &mut seen, &mut order);
                        }
                    }
                }
                Cond::Eq(a, b) | Cond::Lt(a, b) => {
                    self.collect(*a, &mut seen, &mut order);
                    self.collect(*b, &mut seen, &mut order);
                }
            }
        }
        for id in &order {
            let n = self.node(*id);
            width = width.max(n.lo.bits() + 2).max(n.hi.bits() + 2);
        }
        let w = width;
        let mut s = String::new();
        s.push_str("(set-logic QF_BV)\n");
        for (i, d) in self.syms.iter().enumerate() {
            let _ = i;
            s.push_str(&format!("(declare-const s{} (_ BitVec {}))\n", d.name, w));
            s.push_str(&format!("(assert (bvule s{} {}))\n", d.name, Self::bvconst(w, &d.hi)));
        }
        for id in &order {
            let n = self.node(*id);
            let body = match &n.kind {
                Kind::Const(c) => Self::bvconst(w, c),
                Kind::Sym(i) => format!("s{}", self.syms[*i].name),
                Kind::Res(p) => self.smt_poly(w, p),
                Kind::Add(a, b) => format!("(bvadd n{} n{})", a, b),
                Kind::Sub(a, b) => format!("(bvsub n{} n{})", a, b),
                Kind::Mul(a, b) => format!("(bvmul n{} n{})", a, b),
                Kind::Div(a, b) => format!("(bvsdiv n{} n{})", a, b),
                Kind::Rem(a, b) => format!("(bvsrem n{} n{})", a, b),
                Kind::And(a, b) => format!("(bvand n{} n{})", a, b),
                Kind::Or(a, b) => format!("(bvor n{} n{})", a, b),
                Kind::Xor(a, b) => format!("(bvxor n{} n{})", a, b),
                Kind::Shl(a, k) => format!("(bvshl n{} {})", a, Self::bvconst(w, &BI::from(*k))),
                Kind::Shr(a, k) => {
                    let k = (*k).min(w - 1);
                    format!("(bvashr n{} {})", a, Self::bvconst(w, &BI::from(k)))
                }
                Kind::Inv(a) => {
                    s.push_str(&format!("(declare-const n{} (_ BitVec {}))\n", id, w));
                    s.push_str(&format!(
                        "(assert (and (bvult n{} {}) (= (bvurem (bvmul n{} n{}) {}) {})))\n",
                        id,
                        Self::bvconst(w, &self.p),
                        id,
                        a,
                        Self::bvconst(w, &self.p),
                        Self::bvconst(w, &BI::one())
                    ));
                    continue;
                }
            };
            s.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", id, w, body));
        }
        for (c, out) in conds {
            let f = match c {
                Cond::PolyZero(p) => self.smt_polyzero(w, p),
                Cond::Eq(a, b) => format!("(= n{} n{})", a, b),
                Cond::Lt(a, b) => format!("(bvslt n{} n{})", a, b),
            };
            if *out {
                s.push_str(&format!("(assert {})\n", f));
            } else {
                s.push_str(&format!("(assert (not {}))\n", f));
            }
        }
        s
    }
    fn query(&mut self, extra: (Cond, bool)) -> Sat {
        let t0 = std::time::Instant::now();
        let mut conds: Vec<(Cond, bool)> = self.path.iter().filter(|d| d.2).map(|d| (d.0.clone(), d.1)).collect();
        conds.push(extra);
        let script = self.smt(&conds);
        if self.solver.is_none() {
            let bin = std::env::var("SYMX_Z3").unwrap_or_else(|_| "/opt/veriftools/pyvenv/bin/z3".into());
            let mut child = Command::new(bin)
                .args(["-in", "-T:120", "-t:10000"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .env_remove("LD_PRELOAD")
                .spawn()
                .expect("cannot start z3");
            let stdin = child.stdin.take().unwrap();
            let stdout = BufReader::new(child.stdout.take().unwrap());
            self.solver = Some(Solver { _child: child, stdin, stdout });
        }
        let names: Vec<usize> = self.syms.iter().map(|s| s.name).collect();
        let s = self.solver.as_mut().unwrap();
        self.queries += 1;
        let _ = write!(s.stdin, "(reset)\n{}(check-sat)\n(echo \"==\")\n", script);
        let _ = s.stdin.flush();
        let mut ans = String::new();
        let mut err = false;
        loop {
            let mut line = String::new();
            if s.stdout.read_line(&mut line).unwrap_or(0) == 0 {
                err = true;
                break;
            }
            if line.contains("(error") {
                err = true;
            }
            if line.trim() == "==" {
                break;
            }
            ans.push_str(&line);
        }
        let mut result = Sat::Unknown;
        if !err {
            match ans.trim() {
                "unsat" => result = Sat::Unsat,
                "sat" => {
                    let mut model = HashMap::default();
                    for n in &names {
                        let _ = write!(s.stdin, "(eval s{})\n(echo \"==\")\n", n);
                        let _ = s.stdin.flush();
                        let mut a = String::new();
                        loop {
                            let mut line = String::new();
                            if s.stdout.read_line(&mut line).unwrap_or(0) == 0 {
                                break;
                            }
                            if line.trim() == "==" {
                                break;
                            }
                            a.push_str(line.trim());
                        }
                        let v = if let Some(h) = a.strip_prefix("#x") {
                            BI::parse_bytes(h.as_bytes(), 16)
                        } else if let Some(b) = a.strip_prefix("#b") {
                            BI::parse_bytes(b.as_bytes(), 2)
                        } else {
                            None
                        };
                        model.insert(*n, v.unwrap_or_else(BI::zero));
                    }
                    result = Sat::Sat(model);
                }
                _ => {}
            }
        }
        self.solver_ms += t0.elapsed().as_millis();
        result
    }

    // ---------- decisions ----------
    pub fn abort(&mut self, why: &str) -> ! {
        self.aborted = Some(why.to_string());
        self.dump();
        self.out = None;
        unsafe { libc_exit(97) }
    }
    pub fn decide(&mut self, c: Cond) -> bool {
        if let Some(b) = self.known.get(&c) {
            return *b;
        }
        let i = self.path.len();
        if i < self.prefix.len() {
            let (out, free) = self.prefix[i];
            self.path.push((c.clone(), out, free));
            self.known.insert(c.clone(), out);
            if i + 1 == self.prefix.len() {
                // keep only models of the whole prefix
                let conds: Vec<(Cond, bool)> = self.path.iter().map(|d| (d.0.clone(), d.1)).collect();
                let ms = std::mem::take(&mut self.models);
                self.models = ms
                    .into_iter()
                    .filter(|m| conds.iter().all(|(c, o)| self.eval_cond(c, m) == Some(*o)))
                    .collect();
                if self.models.is_empty() {
                    self.abort("prefix replay diverged (no model satisfies it)");
                }
            }
            return out;
        }
        if i >= self.max_decisions {
            self.abort("decision budget exhausted");
        }
        let mut st = None; // model for true
        let mut sf = None;
        for m in &self.models {
            match self.eval_cond(&c, m) {
                Some(true) => st = st.or(Some(m.clone())),
                Some(false) => sf = sf.or(Some(m.clone())),
                None => {}
            }
        }
        for side in [true, false] {
            let missing = if side { st.is_none() } else { sf.is_none() };
            if missing {
                match self.query((c.clone(), side)) {
                    Sat::Sat(m) => {
                        if self.eval_cond(&c, &m) != Some(side) {
                            self.abort("solver model does not evaluate to the queried side");
                        }
                        self.models.push(m.clone());
                        if side {
                            st = Some(m)
                        } else {
                            sf = Some(m)
                        }
                    }
                    Sat::Unsat => {}
                    Sat::Unknown => self.unknowns += 1,
                }
            }
        }
        let (out, free) = match (&st, &sf) {
            (Some(_), None) => (true, false),
            (None, Some(_)) => (false, false),
            (Some(_), Some(m)) => {
                self.alts.push((i, m.clone()));
                (true, true)
            }
            (None, None) => self.abort("path condition has no known model"),
        };
        self.path.push((c.clone(), out, free));
        self.known.insert(c.clone(), out);
        if free {
            let ms = std::mem::take(&mut self.models);
            self.models = ms.into_iter().filter(|m| self.eval_cond(&c, m) == Some(out)).collect();
        }
        out
    }
    fn poly_zero(&mut self, d: Poly) -> bool {
        if d.is_empty() {
            return true;
        }
        if d.len() == 1 && d.keys().next().unwrap().is_empty() {
            return false;
        }
        let lead = d.iter().next_back().unwrap().1.clone();
        let p = self.p.clone();
        let li = mod_floor(&(&lead).mod_inverse(&p).unwrap(), &p);
        let key: Vec<(Vec<Id>, BI)> = d.into_iter().map(|(m, c)| (m, mod_floor(&(c * &li), &p))).collect();
        self.decide(Cond::PolyZero(key))
    }
    pub fn zero_mod_p(&mut self, a: Id) -> bool {
        let r = self.node(a).res.clone();
        self.poly_zero(r)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> bool {
        if a == b {
            return true;
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl || bh < al {
            return false;
        }
        let d = self.padd(&self.node(a).res, &self.node(b).res, true);
        if d.len() == 1 && d.keys().next().unwrap().is_empty() {
            return false;
        }
        if self.in_field(a) && self.in_field(b) {
            return self.poly_zero(d);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.decide(Cond::Eq(a, b))
    }
    pub fn lt(&mut self, a: Id, b: Id) -> bool {
        if a == b {
            return false;
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return true;
        }
        if al >= bh {
            return false;
        }
        self.decide(Cond::Lt(a, b))
    }
    pub fn concretize(&mut self, a: Id) -> BI {
        if let Some(c) = self.as_const(a) {
            return c;
        }
        let mut n = 0;
        loop {
            // candidate value: the driver-visible order is that of the current model;
            // on a replayed prefix the models are not filtered yet, so enumerate the range
            let (lo, hi) = self.range(a);
            let mut v = lo.clone();
            while v <= hi {
                let c = self.konst(&v);
                if self.eq(a, c) {
                    return v;
                }
                n += 1;
                if n > 300 {
                    self.abort("concretisation of a value with more than 300 candidates");
                }
                v += BI::one();
            }
            self.abort("concretisation found no value");
        }
    }

    // ---------- trace ----------
    fn jpoly(p: &[(Vec<Id>, BI)]) -> String {
        let v: Vec<String> = p
            .iter()
            .map(|(m, c)| {
                format!(
                    "[[{}],\"{}\"]",
                    m.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                    c
                )
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn dump(&self) {
        let out = match &self.out {
            Some(o) => o.clone(),
            None => return,
        };
        let mut s = String::from("{\"nodes\":[");
        for (i, n) in self.nodes.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let k = match &n.kind {
                Kind::Const(c) => format!("[\"const\",\"{}\"]", c),
                Kind::Sym(i) => format!("[\"sym\",{}]", self.syms[*i].name),
                Kind::Res(p) => format!("[\"res\",{}]", Self::jpoly(p)),
                Kind::Add(a, b) => format!("[\"add\",{},{}]", a, b),
                Kind::Sub(a, b) => format!("[\"sub\",{},{}]", a, b),
                Kind::Mul(a, b) => format!("[\"mul\",{},{}]", a, b),
                Kind::Div(a, b) => format!("[\"div\",{},{}]", a, b),
                Kind::Rem(a, b) => format!("[\"rem\",{},{}]", a, b),
                Kind::And(a, b) => format!("[\"and\",{},{}]", a, b),
                Kind::Or(a, b) => format!("[\"or\",{},{}]", a, b),
                Kind::Xor(a, b) => format!("[\"xor\",{},{}]", a, b),
                Kind::Shl(a, k) => format!("[\"shl\",{},{}]", a, k),
                Kind::Shr(a, k) => format!("[\"shr\",{},{}]", a, k),
                Kind::Inv(a) => format!("[\"inv\",{}]", a),
            };
            s.push_str(&format!("[{},\"{}\",\"{}\"]", k, n.lo, n.hi));
        }
        s.push_str("],\"path\":[");
        for (i, (c, o, f)) in self.path.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let cs = match c {
                Cond::PolyZero(p) => format!("[\"pz\",{}]", Self::jpoly(p)),
                Cond::Eq(a, b) => format!("[\"eq\",{},{}]", a, b),
                Cond::Lt(a, b) => format!("[\"lt\",{},{}]", a, b),
            };
            s.push_str(&format!("[{},{},{}]", cs, o, f));
        }
        s.push_str("],\"alts\":[");
        let jm = |m: &HashMap<usize, BI>| {
            let mut v: Vec<(usize, String)> = m.iter().map(|(k, v)| (*k, v.to_string())).collect();
            v.sort();
            v.iter().map(|(k, v)| format!("{}:{}", k, v)).collect::<Vec<_>>().join(",")
        };
        for (n, (i, m)) in self.alts.iter().enumerate() {
            if n > 0 {
                s.push(',');
            }
            s.push_str(&format!("[{},\"{}\"]", i, jm(m)));
        }
        s.push_str("],\"models\":[");
        for (n, m) in self.models.iter().take(2).enumerate() {
            if n > 0 {
                s.push(',');
            }
            s.push_str(&format!("\"{}\"", jm(m)));
        }
        s.push_str(&format!(
            "],\"queries\":{},\"solver_ms\":{},\"unknowns\":{},\"prefix_len\":{},\"aborted\":{}}}",
            self.queries,
            self.solver_ms,
            self.unknowns,
            self.prefix.len(),
            match &self.aborted {
                Some(a) => format!("\"{}\"", a),
                None => "null".into(),
            }
        ));
        let _ = std::fs::write(&out, s);
    }
    pub fn small_index(&self, n: &BI) -> Option<usize> {
        n.to_usize()
    }
}

unsafe fn libc_exit(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    _exit(code)
}

pub fn is_token(n: &BI) -> Option<Id> {
    let d = n - tok_base();
    if d.is_negative() || d >= BI::from(TOK_COUNT) {
        None
    } else {
        d.to_u32()
    }
}
pub fn is_literal(n: &BI) -> Option<usize> {
    let d = n - lit_base();
    if d.is_negative() || d >= BI::from(LIT_COUNT) {
        None
    } else {
        d.to_usize()
    }
}
pub fn token(id: Id) -> BI {
    tok_base() + BI::from(id)
}
