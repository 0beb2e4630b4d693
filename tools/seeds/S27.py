PROPERTY = 'P11'
NEEDS = 'a stream whose operations fail with a retryable error: the time they took has to count too'
BREAKS = 'only the time of successful reads counts towards the timeout, so a stream that keeps failing with retryable errors is read for ever'
EDITS = [('wruster/src/streams/timeout_stream.rs', '        read.stop();\n        res\n', '        if res.is_ok() {\n            read.stop();\n        }\n        res\n')]
DEPS = 'log="*"\npolling="2"\nrustls="0.20"\nrustls-pemfile="1"\nrcgen="*"\natomic_refcell="*"\n'
DEMO = r"""#[path = "@REPO@/wruster/src/streams/mod.rs"]
#[allow(dead_code, unused_imports)]
mod streams;
#[allow(dead_code)]
mod test_utils { pub fn get_free_port() -> u16 { 0 } }
use std::io::{self, Read, Write};
use std::time::{Duration, Instant};
use streams::timeout_stream::{Timeout, TimeoutStream};
struct Mock;
impl Read for Mock {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        std::thread::sleep(Duration::from_millis(50));
        Err(io::Error::from(io::ErrorKind::Interrupted))
    }
}
impl Write for Mock {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        std::thread::sleep(Duration::from_millis(50));
        Err(io::Error::from(io::ErrorKind::Interrupted))
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Timeout for Mock {
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
}
fn main() {
    let t = Duration::from_millis(400);
    let mut s = TimeoutStream::from(Mock, Some(t), Some(t));
    let mut buf = [0u8; 8];
    let start = Instant::now();
    loop {
        let e = s.read(&mut buf).unwrap_err();
        if e.kind() == io::ErrorKind::TimedOut { break; }
        assert!(start.elapsed() < Duration::from_secs(5), "read never times out");
    }
    let start = Instant::now();
    loop {
        let e = s.write(&buf).unwrap_err();
        if e.kind() == io::ErrorKind::TimedOut { break; }
        assert!(start.elapsed() < Duration::from_secs(5), "write never times out");
    }
}
"""
