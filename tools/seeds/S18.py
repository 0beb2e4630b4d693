PROPERTY = "P18"
NEEDS = "a pool dropped by the unwinding of a panic while one of its elastic workers is still running a job"
BREAKS = "the destructor of an elastic worker does not join its thread when it runs during a panic, so the pool is gone while its jobs are still running"
EDITS = [("wruster/src/thread_pool/dynamic_pool.rs", """        let handle = self.handle.take().unwrap();
        handle.join().unwrap();""", """        let handle = self.handle.take().unwrap();
        // Joining while unwinding could hide the panic.
        if !thread::panicking() {
            handle.join().unwrap();
        }""")]
DEMO = """#[macro_use] extern crate log;
#[path = "@REPO@/wruster/src/thread_pool/mod.rs"]
#[allow(dead_code)]
mod thread_pool;
use std::sync::{atomic::{AtomicBool, Ordering}, mpsc, Arc};
use std::time::Duration;
fn main() {
    for (min, max) in [(1, 1), (0, 2), (0, 1)] {
        let done = Arc::new(AtomicBool::new(false));
        let d = done.clone();
        let (tx, rx) = mpsc::channel();
        let mut pool = thread_pool::Pool::new(min, max);
        let mut job: Box<dyn FnOnce() + Send> = Box::new(move || { tx.send(()).unwrap(); std::thread::sleep(Duration::from_millis(400)); d.store(true, Ordering::SeqCst); });
        while let Err(e) = pool.run(job) { job = e.action; std::thread::sleep(Duration::from_millis(5)); }
        rx.recv().unwrap();
        let r = std::thread::spawn(move || { let _pool = pool; panic!("the owner of the pool fails"); }).join();
        assert!(r.is_err());
        assert!(done.load(Ordering::SeqCst), "the pool is gone and its job still runs");
    }
}
"""
DEPS = 'log = "*"\natomic_refcell = "*"'
