PROPERTY = 'P01'
NEEDS = 'a request line whose version is empty and whose line ends without a carriage return'
BREAKS = 'reading such a request line panics instead of refusing it'
EDITS = [('wruster/src/http/mod.rs', 'if version.len() < 3 {\n            return Err(InvalidRequest', 'if version.is_empty() {\n            return Err(InvalidRequest')]
DEMO = r"""use wruster::http::Request;
fn main() {
    for l in ["GET / \n", "GET / \r\n", "GET / ", "GET / H\n", "GET / HTTP/1.1\n\r\n", "GET  \n", " / \n"] {
        let _ = Request::read_from_str(l);
    }
    Request::read_from_str("GET / HTTP/1.1\r\n\r\n").unwrap();
}
"""
