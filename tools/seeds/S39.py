PROPERTY = 'P33'
NEEDS = 'a route whose content has characters of more than one byte'
BREAKS = 'the content of such a route is cut'
EDITS = [('wrusdummy/src/main.rs', 'let len = content.len() as u64;', 'let len = content.chars().count() as u64;')]
LIMIT = 250
DEMO = r"""use std::io::{Read, Write};
use std::net::TcpStream;
use std::process::Command;
use std::time::Duration;
fn main() {
    let dir = std::env::temp_dir().join(format!("wvdemo-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let ok = Command::new("cargo")
        .args(["build", "--offline", "-q", "--manifest-path", "@REPO@/wrusdummy/Cargo.toml", "--target-dir"])
        .arg(dir.join("t")).status().unwrap().success();
    let cfg = dir.join("c.yaml");
    let text = "h\u{e9}llo w\u{f6}rld \u{20ac}";
    std::fs::write(&cfg, format!("a:\n  path: /a\n  method: GET\n  response:\n    status: 200\n    content: \"{}\"\n    type: text/plain\nb:\n  path: /b\n  method: GET\n  response:\n    status: 404\n    content: \"plain\"\n    type: text/plain\n", text)).unwrap();
    let addr = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().to_string() };
    let mut res = Vec::new();
    if ok {
        let mut child = Command::new(dir.join("t/debug/wrusdummy")).arg(&addr).arg(&cfg).spawn().unwrap();
        for p in ["/a", "/b"] {
            let mut got = Vec::new();
            for _ in 0..50 {
                if let Ok(mut c) = TcpStream::connect(&addr) {
                    c.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
                    c.write_all(format!("GET {} HTTP/1.1\r\nConnection: close\r\n\r\n", p).as_bytes()).unwrap();
                    let _ = c.read_to_end(&mut got);
                    break;
                }
                std::thread::sleep(Duration::from_millis(100));
            }
            res.push(String::from_utf8_lossy(&got).to_string());
        }
        let _ = child.kill();
        let _ = child.wait();
    }
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(ok);
    assert!(res[0].starts_with("HTTP/1.1 200") && res[0].ends_with(&format!("\r\n\r\n{}", text)), "{}", res[0]);
    assert!(res[1].starts_with("HTTP/1.1 404") && res[1].ends_with("\r\n\r\nplain"), "{}", res[1]);
}
"""
