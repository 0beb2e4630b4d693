PROPERTY = 'P12'
NEEDS = 'a connection whose set-up fails, such as a TLS one with an unusable key or with no descriptors left'
BREAKS = 'a failure in the set-up of a connection ends the accept loop'
EDITS = [('wruster/src/lib.rs', '                        error!("error cloning stream: {}", err.to_string());\n                        continue;\n', '                        error!("error cloning stream: {}", err.to_string());\n                        return Err(Box::new(err));\n')]
DEMO = r"""use std::io::Read;
use std::net::TcpStream;
use std::str::FromStr;
use std::time::Duration;
use wruster::{http::*, router, Certificate, PrivateKey, Server};
const PEM: &str = "-----BEGIN @@-----\naGVsbG8gdGhlcmU=\n-----END @@-----\n";
fn main() {
    let dir = std::env::temp_dir().join(format!("wvdemo-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let (k, c) = (dir.join("k.pem"), dir.join("c.pem"));
    std::fs::write(&k, PEM.replace("@@", "PRIVATE KEY")).unwrap();
    std::fs::write(&c, PEM.replace("@@", "CERTIFICATE")).unwrap();
    let key = PrivateKey::read_from(k.to_str().unwrap()).unwrap();
    let cert = Certificate::read_from(c.to_str().unwrap()).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    let routes = router::Router::new();
    let h: router::HttpHandler = Box::new(|_| Response::from_str("x").unwrap());
    routes.add("/", HttpMethod::GET, h);
    let addr = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().to_string() };
    let mut s = Server::new();
    s.run_tls(&addr, routes, key, cert).unwrap();
    for _ in 0..3 {
        let mut c = TcpStream::connect(&addr).expect("still accepting");
        c.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
        let mut b = [0u8; 1];
        match c.read(&mut b) {
            Ok(n) => assert_eq!(n, 0),
            Err(e) => assert!(e.kind() == std::io::ErrorKind::ConnectionReset, "{}", e),
        }
        std::thread::sleep(Duration::from_millis(300));
    }
    s.shutdown().expect("nothing failed in the server");
}
"""
