PROPERTY = 'P30'
NEEDS = 'a request whose target holds bytes that are not UTF-8'
BREAKS = 'the target is taken as text without looking at it, to save a copy, so the text an action gets is not valid and what the standard library does with it is undefined'
EDITS = [('wruster/src/http/mod.rs', """        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);
""", """        uri.pop();
        // A target only has the characters of a URI.
        let uri = unsafe { String::from_utf8_unchecked(uri) };
""")]
DEMO = r"""use std::io::Cursor;
use wruster::http::Request;
fn main() {
    let uris: [&[u8]; 3] = [b"/plain", b"/caf\xc3\xa9", b"/caf\xe9\xff"];
    for uri in uris {
        let mut bytes = b"GET ".to_vec();
        bytes.extend_from_slice(uri);
        bytes.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
        // A target that is refused is fine, one that is not text is not.
        if let Ok(request) = Request::read_from(Box::new(Cursor::new(bytes))) {
            let text = std::hint::black_box(request.uri.as_bytes().to_vec());
            if std::str::from_utf8(&text).is_err() {
                eprintln!("not text: {:?}", text);
                std::process::exit(1);
            }
        }
    }
}
"""
