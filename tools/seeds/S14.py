PROPERTY = "P14"
NEEDS = "a connection that arrives together with the shutdown request, so that one wake-up reports both"
BREAKS = "the stop request is only looked at after a wake-up without connections: when the wake-up of the shutdown also reports a connection the request is lost and shutdown blocks until another event comes"
EDITS = [("wruster/src/lib.rs", "            if stop.as_ref().load(Ordering::SeqCst) {", "            if events.is_empty() && stop.as_ref().load(Ordering::SeqCst) {")]
LIMIT = 200
DEMO = """use std::net::TcpStream;
use std::sync::{atomic::{AtomicBool, Ordering}, mpsc, Arc};
use std::time::Duration;
use wruster::{router, Server};
fn main() {
    for round in 0..150 {
        let addr = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap() };
        let mut s = Server::new();
        s.run(&addr.to_string(), router::Router::new()).unwrap();
        let go = Arc::new(AtomicBool::new(true));
        let ts: Vec<_> = (0..2).map(|_| { let go = go.clone(); std::thread::spawn(move || {
            let mut n = 0;
            while go.load(Ordering::SeqCst) && n < 60 { n += 1; drop(TcpStream::connect_timeout(&addr, Duration::from_millis(200))); }
        }) }).collect();
        std::thread::sleep(Duration::from_micros(200 + 37 * (round % 40)));
        let (tx, rx) = mpsc::channel();
        let go2 = go.clone();
        std::thread::spawn(move || { s.shutdown().unwrap(); go2.store(false, Ordering::SeqCst); tx.send(()).unwrap(); });
        let r = rx.recv_timeout(Duration::from_secs(30));
        go.store(false, Ordering::SeqCst);
        if r.is_err() { eprintln!("shutdown lost in round {}", round); std::process::exit(1); }
        for t in ts { t.join().unwrap(); }
    }
}
"""
