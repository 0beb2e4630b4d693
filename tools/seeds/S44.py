PROPERTY = 'P06'
NEEDS = 'a writer that takes fewer bytes than it is offered, exactly at the end of the headers'
BREAKS = 'the line that ends the headers can be written only in part without an error'
EDITS = [('wruster/src/http/headers.rs', '        let written = to.write_all("\\r\\n".as_bytes());\n', '        let written = to.write("\\r\\n".as_bytes());\n')]
DEPS = 'mime="*"'
DEMO = r"""use std::io::{self, Write};
use wruster::http::*;
struct Short(Vec<u8>, usize);
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    for n in [1, 2, 3, 1000] {
        let mut w = Short(Vec::new(), n);
        let mut r = Response::from_content(io::Cursor::new("abc"), 3, mime::TEXT_PLAIN);
        r.write(&mut w).unwrap();
        assert!(w.0.ends_with(b"\r\n\r\nabc"), "{:?}", String::from_utf8_lossy(&w.0));
    }
}
"""
