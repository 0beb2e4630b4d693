PROPERTY = 'P15'
NEEDS = 'a start that fails because the address is in use, followed by another one'
BREAKS = 'a server whose start failed refuses to start again, as if it was running'
EDITS = [('wruster/src/lib.rs', '        let listener = match net::TcpListener::bind(addr) {\n            Ok(listener) => listener,\n            Err(err) => return Err(Box::new(err)),\n        };\n', '        self.poller = Some(Arc::new(polling::Poller::new()?));\n        let listener = match net::TcpListener::bind(addr) {\n            Ok(listener) => listener,\n            Err(err) => return Err(Box::new(err)),\n        };\n')]
DEMO = r"""use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::str::FromStr;
use std::time::Duration;
use wruster::{http::*, router, Server};
fn routes() -> router::Router {
    let routes = router::Router::new();
    let h: router::HttpHandler = Box::new(|_| Response::from_str("x").unwrap());
    routes.add("/", HttpMethod::GET, h);
    routes
}
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let mut s = Server::new();
    assert!(s.run(&addr, routes()).is_err());
    drop(l);
    s.run(&addr, routes()).expect("the address is free now");
    let mut c = TcpStream::connect(&addr).unwrap();
    c.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
    c.write_all(b"GET / HTTP/1.1\r\nConnection: close\r\n\r\n").unwrap();
    let mut got = String::new();
    c.read_to_string(&mut got).unwrap();
    assert!(got.ends_with("x"));
    assert!(s.run("127.0.0.1:0", routes()).is_err());
    s.shutdown().unwrap();
}
"""
