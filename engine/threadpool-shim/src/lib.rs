//! threadpool stand-in: one worker, order of the queued jobs chosen by the
//! verification driver (SYMX_SCHED = seed of a permutation; unset = at once).
use std::sync::{Arc, Mutex};
type Job = Box<dyn FnOnce() + Send + 'static>;

#[derive(Clone)]
pub struct ThreadPool {
    q: Arc<Mutex<Vec<Job>>>,
    n: usize,
}
#[derive(Clone, Default)]
pub struct Builder {
    n: Option<usize>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { n: None }
    }
    pub fn num_threads(mut self, n: usize) -> Builder {
        assert!(n > 0);
        self.n = Some(n);
        self
    }
    pub fn thread_name(self, _: String) -> Builder {
        self
    }
    pub fn thread_stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn build(self) -> ThreadPool {
        ThreadPool::new(self.n.unwrap_or_else(num_cpus::get))
    }
}
fn sched() -> Option<u64> {
    std::env::var("SYMX_SCHED").ok().and_then(|s| s.parse().ok())
}
impl ThreadPool {
    pub fn new(n: usize) -> ThreadPool {
        assert!(n >= 1);
        ThreadPool { q: Arc::new(Mutex::new(vec![])), n }
    }
    pub fn with_name(_: String, n: usize) -> ThreadPool {
        ThreadPool::new(n)
    }
    pub fn execute<F: FnOnce() + Send + 'static>(&self, f: F) {
        if sched().is_none() {
            f()
        } else {
            self.q.lock().unwrap().push(Box::new(f))
        }
    }
    fn drain(&self) {
        let mut x = sched().unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
        loop {
            let job = {
                let mut q = self.q.lock().unwrap();
                if q.is_empty() {
                    return;
                }
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                let k = (x >> 20) as usize % q.len();
                q.remove(k)
            };
            job()
        }
    }
    pub fn join(&self) {
        self.drain()
    }
    pub fn queued_count(&self) -> usize {
        self.q.lock().unwrap().len()
    }
    pub fn active_count(&self) -> usize {
        0
    }
    pub fn max_count(&self) -> usize {
        self.n
    }
    pub fn panic_count(&self) -> usize {
        0
    }
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        if Arc::strong_count(&self.q) == 1 {
            self.drain()
        }
    }
}
