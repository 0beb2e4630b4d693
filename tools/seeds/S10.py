PROPERTY = "P10"
NEEDS = "an HTTP/1.0 client that asks for a persistent connection with the customary capitalised value Keep-Alive"
BREAKS = "the option keep-alive of an HTTP/1.0 request is compared with its exact case, so the connection of a client that sends Keep-Alive is closed after the first response"
EDITS = [("wruster/src/lib.rs", "Some(values) => values[0].to_lowercase(),", "Some(values) => values[0].to_string(),"),
         ("wruster/src/lib.rs", "    if value == \"close\" {\n        return false;\n    }\n\n    if request.version == \"HTTP/1.1\"", "    if value.eq_ignore_ascii_case(\"close\") {\n        return false;\n    }\n\n    if request.version == \"HTTP/1.1\"")]
DEMO = """use std::io::{Read, Write};
use std::net::TcpStream;
use std::str::FromStr;
use std::time::Duration;
use wruster::{http::*, router, Server};
fn main() {
    let routes = router::Router::new();
    let h: router::HttpHandler = Box::new(|_| Response::from_str("x").unwrap());
    routes.add("/", HttpMethod::GET, h);
    let addr = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().to_string() };
    let mut s = Server::new();
    s.run(&addr, routes).unwrap();
    for v in ["keep-alive", "Keep-Alive", "KEEP-ALIVE"] {
        let mut c = TcpStream::connect(&addr).unwrap();
        c.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        for _ in 0..3 {
            c.write_all(format!("GET / HTTP/1.0\\r\\nConnection: {}\\r\\n\\r\\n", v).as_bytes()).unwrap();
            let r = Response::read_from(c.try_clone().unwrap()).expect("the connection must stay open");
            assert!(r.status == StatusCode::OK);
            let mut b = String::new();
            r.body.unwrap().content.take(1).read_to_string(&mut b).unwrap();
        }
    }
    let mut c = TcpStream::connect(&addr).unwrap();
    c.write_all(b"GET / HTTP/1.1\\r\\nConnection: CLOSE\\r\\n\\r\\n").unwrap();
    let mut all = Vec::new();
    c.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    c.read_to_end(&mut all).expect("closed");
    s.shutdown().unwrap();
}
"""
