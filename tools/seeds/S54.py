PROPERTY = 'P37'
NEEDS = 'a client with a connection in its pool that is not used'
BREAKS = 'the thread that forgets old connections looks at the pool again and again without a pause while there is a connection in it, so an idle client takes a whole processor'
EDITS = [('wruster/src/http/client/connection_pool.rs', """            drop(resources);
            thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);
""", """            // Only rest when there is nothing left that can expire.
            let rest = resources.is_empty();
            drop(resources);
            if rest {
                thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);
            }
""")]
DEMO = r"""use std::io::{Read, Write};
use std::net::TcpListener;
use std::time::Duration;
use wruster::http::client::Client;
use wruster::http::*;
fn ticks() -> u64 {
    let stat = std::fs::read_to_string("/proc/self/stat").unwrap();
    let rest = &stat[stat.rfind(')').unwrap() + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    f[11].parse::<u64>().unwrap() + f[12].parse::<u64>().unwrap()
}
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    std::thread::spawn(move || {
        for c in l.incoming() {
            let mut c = c.unwrap();
            std::thread::spawn(move || {
                let (mut got, mut b) = (Vec::new(), [0u8; 1]);
                while c.read(&mut b).unwrap_or(0) == 1 {
                    got.push(b[0]);
                    if got.ends_with(b"\r\n\r\n") {
                        c.write_all(b"HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: 2\r\n\r\nok").unwrap();
                        got.clear();
                    }
                }
            });
        }
    });
    let client = Client::new();
    let request = || Request { method: HttpMethod::GET, uri: "/".to_string(), version: "HTTP/1.1".to_string(), headers: headers::Headers::new(), body: None };
    drop(client.run(&addr, request()).unwrap());
    // The pool is looked at every 15 seconds.
    std::thread::sleep(Duration::from_secs(14));
    drop(client.run(&addr, request()).unwrap());
    std::thread::sleep(Duration::from_secs(3));
    let before = ticks();
    std::thread::sleep(Duration::from_secs(3));
    let used = ticks() - before;
    eprintln!("{} ticks in 3 seconds", used);
    std::process::exit(if used < 60 { 0 } else { 1 });
}
"""
