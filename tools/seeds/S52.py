PROPERTY = 'P29'
NEEDS = 'a program with a panic hook of its own, and a panic outside the actions of the server after the server has had more connections at once than it has workers that are always there'
BREAKS = 'the first worker of the pool replaces the panic hook of the whole process to keep the panics of actions out of the output, so the panics of the program that uses the library are no longer seen'
EDITS = [('wruster/src/thread_pool/dynamic_pool.rs', """            t_initialized.store(true, Ordering::SeqCst);
""", """            if !t_initialized.swap(true, Ordering::SeqCst) {
                std::panic::set_hook(Box::new(|info| error!("worker: {}", info)));
            }
""")]
DEMO = r"""use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;
use wruster::http::{HttpMethod, Response};
use wruster::router::{HttpHandler, Router};
use wruster::Server;
static SEEN: AtomicUsize = AtomicUsize::new(0);
fn main() {
    std::panic::set_hook(Box::new(|_| {
        SEEN.fetch_add(1, Ordering::SeqCst);
    }));
    let addr = {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        l.local_addr().unwrap().to_string()
    };
    let routes = Router::new();
    let action: HttpHandler = Box::new(|_| Response::from_str("hello").unwrap());
    routes.add("/", HttpMethod::GET, action);
    let mut server = Server::new();
    if server.run(&addr, routes).is_err() {
        std::process::exit(3);
    }
    // Keep the workers that are always there busy.
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8) + 4;
    let mut waiting = Vec::new();
    for _ in 0..n {
        waiting.push(TcpStream::connect(&addr).unwrap());
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut c = TcpStream::connect(&addr).unwrap();
    c.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    c.write_all(b"GET / HTTP/1.1\r\nConnection: close\r\n\r\n").unwrap();
    let mut got = Vec::new();
    let _ = c.read_to_end(&mut got);
    if !got.starts_with(b"HTTP/1.1 200") {
        std::process::exit(4);
    }
    let before = SEEN.load(Ordering::SeqCst);
    let _ = std::thread::spawn(|| panic!("of the program")).join();
    let after = SEEN.load(Ordering::SeqCst);
    std::process::exit(if after == before + 1 { 0 } else { 1 });
}
"""
