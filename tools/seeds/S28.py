PROPERTY = 'P20'
NEEDS = 'a read that is interrupted by a signal at the wrong moment'
BREAKS = 'an interrupted read is reported as the end of the stream'
EDITS = [('wruster/src/streams/timeout_stream.rs', '        let stream = &mut self.stream;\n        let res = stream.read(buf).map_err(|err| {\n            // REVIEW: In some cases a read operation over a stream returns\n            // WouldBlock instead of the expected TimedOut.\n            match err.kind() {\n                ErrorKind::WouldBlock => io::Error::from(ErrorKind::TimedOut),\n                _ => err,\n            }\n        });\n        read.stop();\n        res\n    }\n}\n\nimpl<T> io::Write', '        let stream = &mut self.stream;\n        let res = stream.read(buf).or_else(|err| {\n            // REVIEW: In some cases a read operation over a stream returns\n            // WouldBlock instead of the expected TimedOut.\n            match err.kind() {\n                ErrorKind::WouldBlock => Err(io::Error::from(ErrorKind::TimedOut)),\n                ErrorKind::Interrupted => Ok(0),\n                _ => Err(err),\n            }\n        });\n        read.stop();\n        res\n    }\n}\n\nimpl<T> io::Write')]
DEPS = 'log="*"\npolling="2"\nrustls="0.20"\nrustls-pemfile="1"\nrcgen="*"\natomic_refcell="*"\n'
DEMO = r"""#[path = "@REPO@/wruster/src/streams/mod.rs"]
#[allow(dead_code, unused_imports)]
mod streams;

use std::io::{self, Read, Write};
use std::time::Duration;
use streams::timeout_stream::{Timeout, TimeoutStream};
struct Mock(usize);
impl Read for Mock {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        match self.0 {
            2 => Err(io::Error::from(io::ErrorKind::Interrupted)),
            1 | 3 => { b[0] = b'x'; Ok(1) }
            _ => Ok(0),
        }
    }
}
impl Write for Mock {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Timeout for Mock {
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
}
fn main() {
    let t = Duration::from_secs(20);
    let mut s = TimeoutStream::from(Mock(0), Some(t), Some(t));
    let mut got = String::new();
    s.read_to_string(&mut got).unwrap();
    assert_eq!(got, "xx", "the read ended early");
}
"""
