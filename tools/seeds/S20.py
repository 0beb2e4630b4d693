PROPERTY = 'P24'
NEEDS = 'three nested routes and a request below the second of them, on a path that shares more bytes with the third'
BREAKS = 'the shortest matching route wins over the most concrete one'
EDITS = [('wruster/src/router/trie.rs', '        let next_parent = match &self.value {\n            None => prefix_value,\n            Some(value) => Some(value),\n        };\n', '        let next_parent = prefix_value.or(self.value.as_ref());\n')]
DEMO = r"""use std::io::Read;
use std::str::FromStr;
use wruster::{http::client::Client, http::*, http::headers::Headers, router, Server};
fn main() {
    let routes = router::Router::new();
    for r in ["/a", "/a/b", "/a/b/c"] {
        let h: router::HttpHandler = Box::new(move |_| Response::from_str(r).unwrap());
        routes.add(r, HttpMethod::GET, h);
    }
    let addr = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().to_string() };
    let mut s = Server::new();
    s.run(&addr, routes).unwrap();
    let client = Client::new();
    for (uri, want) in [("/a/b/x", "/a/b"), ("/a", "/a"), ("/a/x", "/a"), ("/a/b", "/a/b"), ("/a/b/c", "/a/b/c"), ("/a/b/c/d", "/a/b/c"), ("/a/b/", "/a/b")] {
        let req = Request { method: HttpMethod::GET, uri: uri.to_string(), version: "HTTP/1.1".to_string(), headers: Headers::new(), body: None };
        let mut resp = client.run(&addr, req).unwrap();
        assert!(resp.status == StatusCode::OK, "{}", uri);
        let mut got = String::new();
        resp.body.as_mut().unwrap().read_to_string(&mut got).unwrap();
        assert_eq!(got, want, "{}", uri);
    }
    drop(client);
    s.shutdown().unwrap();
}
"""
