PROPERTY = 'P22'
NEEDS = 'a connection that ends while older and newer ones are open, then another connection'
BREAKS = 'the key of a connection in the list of the active ones can be the key of another one, which is then not closed on shutdown'
EDITS = [('wruster/src/streams/observable.rs', '        let key = list.next_key.fetch_add(1, Ordering::SeqCst);\n', '        let key = list.len();\n        list.next_key.store(key + 1, Ordering::SeqCst);\n')]
DEMO = r"""use std::io::{Read, Write};
use std::net::TcpStream;
use std::str::FromStr;
use std::time::Duration;
use wruster::{http::*, router, Server};
fn ask(c: &mut TcpStream) {
    c.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
    c.write_all(b"GET / HTTP/1.1\r\n\r\n").unwrap();
    let mut b = [0u8; 512];
    let mut all = Vec::new();
    while !all.ends_with(b"\r\n\r\nx") {
        let n = c.read(&mut b).unwrap();
        assert!(n > 0);
        all.extend_from_slice(&b[..n]);
    }
}
fn main() {
    let routes = router::Router::new();
    let h: router::HttpHandler = Box::new(|_| Response::from_str("x").unwrap());
    routes.add("/", HttpMethod::GET, h);
    let addr = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().to_string() };
    let mut s = Server::new();
    s.run(&addr, routes).unwrap();
    let mut a = TcpStream::connect(&addr).unwrap();
    ask(&mut a);
    let mut b = TcpStream::connect(&addr).unwrap();
    ask(&mut b);
    drop(a);
    std::thread::sleep(Duration::from_millis(500));
    let mut c = TcpStream::connect(&addr).unwrap();
    ask(&mut c);
    let start = std::time::Instant::now();
    s.shutdown().unwrap();
    assert!(start.elapsed() < Duration::from_secs(12), "the shutdown waited for an idle connection");
    for x in [&mut b, &mut c] {
        let mut buf = [0u8; 8];
        match x.read(&mut buf) {
            Ok(n) => assert_eq!(n, 0),
            Err(e) => assert!(e.kind() == std::io::ErrorKind::ConnectionReset, "an idle connection stays open: {}", e),
        }
    }
}
"""
