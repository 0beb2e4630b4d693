PROPERTY = 'P23'
NEEDS = 'debug messages enabled and more connections than workers'
BREAKS = 'the list of free workers is asked for again while it is held, so the accepting thread blocks for ever'
DEPS = 'log = "0.4"'
EDITS = [('wruster/src/thread_pool/dynamic_pool.rs', '            None => return Err(action),\n        };\n\n        let free_cells = Arc::downgrade', '            None => {\n                log::debug!("no room for another worker: {} busy", self.number_of_workers());\n                return Err(action);\n            }\n        };\n\n        let free_cells = Arc::downgrade')]
DEMO = r"""use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::Duration;
use wruster::{http::*, router, Server};
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = r.args().to_string(); }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&Log).unwrap();
    log::set_max_level(log::LevelFilter::Debug);
    let routes = router::Router::new();
    let h: router::HttpHandler = Box::new(|_| Response::from_status(StatusCode::OK));
    routes.add("/", HttpMethod::GET, h);
    let addr = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().to_string() };
    let mut s = Server::new();
    s.run(&addr, routes).unwrap();
    let mut held = Vec::new();
    for _ in 0..250 {
        if let Ok(c) = TcpStream::connect(&addr) { held.push(c); }
    }
    std::thread::sleep(Duration::from_secs(2));
    drop(held);
    std::thread::sleep(Duration::from_secs(2));
    let mut c = TcpStream::connect(&addr).unwrap();
    c.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    c.write_all(b"GET / HTTP/1.1\r\nConnection: close\r\n\r\n").unwrap();
    let mut got = Vec::new();
    let _ = c.read_to_end(&mut got);
    std::process::exit(if got.starts_with(b"HTTP/1.1 200") { 0 } else { 1 });
}
"""
