PROPERTY = 'P23'
NEEDS = 'a response let go of before its body has arrived, while another request is made by the same client'
BREAKS = 'the pool of connections stays locked while the rest of a body is waited for, so requests to other servers wait too'
EDITS = [('wruster/src/http/client/mod.rs', '        if let Some(pool) = self.pool.upgrade() {\n            match self.response.body.as_mut() {\n                Some(body) => {\n                    if let Err(err) = body.ensure_read() {\n                        error!(\n                            "error ensuring body in request has completely read: {}",\n                            err\n                        );\n                        return;\n                    }\n                }\n                // The body was taken out of the response, so its owner could\n                // still be reading it from the connection.\n                None if self.has_body => return,\n                None => (),\n            }\n\n            let pool = match pool.lock() {\n                Ok(pool) => pool,\n                Err(_) => {\n                    error!("error getting a lock for a client connection pool");\n                    return;\n                }\n            };\n', '        if let Some(pool) = self.pool.upgrade() {\n            let pool = match pool.lock() {\n                Ok(pool) => pool,\n                Err(_) => {\n                    error!("error getting a lock for a client connection pool");\n                    return;\n                }\n            };\n\n            match self.response.body.as_mut() {\n                Some(body) => {\n                    if let Err(err) = body.ensure_read() {\n                        error!(\n                            "error ensuring body in request has completely read: {}",\n                            err\n                        );\n                        return;\n                    }\n                }\n                // The body was taken out of the response, so its owner could\n                // still be reading it from the connection.\n                None if self.has_body => return,\n                None => (),\n            }\n')]
DEMO = r"""use std::io::{Read, Write};
use std::net::TcpListener;
use std::sync::{mpsc, Arc};
use std::time::Duration;
use wruster::http::client::Client;
use wruster::http::*;
fn server(reply: &'static [u8]) -> String {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    std::thread::spawn(move || {
        for c in l.incoming() {
            let mut c = c.unwrap();
            std::thread::spawn(move || {
                let (mut got, mut b) = (Vec::new(), [0u8; 1]);
                while !got.ends_with(b"\r\n\r\n") {
                    if c.read(&mut b).unwrap_or(0) == 0 { return; }
                    got.push(b[0]);
                }
                c.write_all(reply).unwrap();
                std::thread::sleep(Duration::from_secs(6));
            });
        }
    });
    addr
}
fn get() -> Request {
    Request { method: HttpMethod::GET, uri: "/".to_string(), version: "HTTP/1.1".to_string(), headers: headers::Headers::new(), body: None }
}
fn main() {
    let slow = server(b"HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: 10\r\n\r\n12345");
    let quick = server(b"HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: 2\r\n\r\nok");
    let client = Arc::new(Client::new());
    let c = Arc::clone(&client);
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let response = c.run(&slow, get()).unwrap();
        tx.send(()).unwrap();
        drop(response);
    });
    rx.recv().unwrap();
    std::thread::sleep(Duration::from_millis(500));
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = client.run(&quick, get());
        tx.send(r.is_ok()).unwrap();
    });
    let ok = rx.recv_timeout(Duration::from_secs(3)).expect("a request to another server does not wait");
    std::process::exit(if ok { 0 } else { 1 });
}
"""
