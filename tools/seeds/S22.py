PROPERTY = 'P25'
NEEDS = 'a target with a dot component, repeated slashes or a final slash, but with no parent component'
BREAKS = 'the handler is given the target as received instead of the normalised path'
EDITS = [('wruster/src/lib.rs', '    request.uri = String::from(normalized);\n', '    if request.uri.contains("..") {\n        request.uri = String::from(normalized);\n    }\n')]
DEMO = r"""use std::io::{Read, Write};
use std::net::TcpStream;
use std::str::FromStr;
use std::time::Duration;
use wruster::{http::*, router, Server};
fn main() {
    let routes = router::Router::new();
    let h: router::HttpHandler = Box::new(|r: &mut Request| Response::from_str(&r.uri).unwrap());
    routes.add("/", HttpMethod::GET, h);
    let addr = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().to_string() };
    let mut s = Server::new();
    s.run(&addr, routes).unwrap();
    for (uri, want) in [("/a/../b", "/b"), ("/a//b", "/a/b"), ("/a/./b", "/a/b"), ("/a/", "/a"), ("/a/b", "/a/b"), ("/", "/")] {
        let mut c = TcpStream::connect(&addr).unwrap();
        c.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        c.write_all(format!("GET {} HTTP/1.1\r\nConnection: close\r\n\r\n", uri).as_bytes()).unwrap();
        let mut got = String::new();
        c.read_to_string(&mut got).unwrap();
        assert!(got.ends_with(&format!("\r\n\r\n{}", want)), "{}: {}", uri, got);
    }
    s.shutdown().unwrap();
}
"""
