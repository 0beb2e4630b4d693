PROPERTY = 'P21'
NEEDS = 'a reader that is waiting at the moment another thread shuts the stream down'
BREAKS = 'the stream is marked as done only after its shutdown, so a reader woken up by the shutdown can report a clean or reset connection instead of a cancelled one'
EDITS = [('wruster/src/streams/cancellable_stream.rs', '        self.done.store(true, Ordering::SeqCst);\n        self.stream.shutdown(how)\n', '        let res = self.stream.shutdown(how);\n        self.done.store(true, Ordering::SeqCst);\n        res\n')]
DEPS = 'log="*"\npolling="2"\nrustls="0.20"\nrustls-pemfile="1"\nrcgen="*"\natomic_refcell="*"\n'
DEMO = r"""#[path = "@REPO@/wruster/src/streams/mod.rs"]
#[allow(dead_code, unused_imports)]
mod streams;

use std::io::{self, Read};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::Arc;
use std::time::Duration;
use streams::{cancellable_stream::CancellableStream, BaseStream};
// a socket whose shutdown returns a while after it took effect
struct Slow(TcpStream);
impl BaseStream for Slow {
    fn set_nonblocking(&self, n: bool) -> io::Result<()> { self.0.set_nonblocking(n) }
    fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        let r = self.0.shutdown(how);
        std::thread::sleep(Duration::from_millis(1500));
        r
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
    fn as_raw(&self) -> std::os::unix::io::RawFd { self.0.as_raw_fd() }
    fn write_buf(&self, b: &[u8]) -> io::Result<usize> { self.0.write_buf(b) }
    fn read_buf(&self, b: &mut [u8]) -> io::Result<usize> { self.0.read_buf(b) }
    fn flush_data(&self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let _peer = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (s, _) = l.accept().unwrap();
    let s = Arc::new(CancellableStream::new(Slow(s)).unwrap());
    let r = Arc::clone(&s);
    let t = std::thread::spawn(move || {
        let mut b = [0u8; 4];
        let mut r = &*r;
        r.read(&mut b)
    });
    std::thread::sleep(Duration::from_millis(500));
    s.shutdown(Shutdown::Both).unwrap();
    let res = t.join().unwrap();
    assert_eq!(res.expect_err("no bytes were sent").kind(), io::ErrorKind::NotConnected);
}
"""
