PROPERTY = 'P03'
NEEDS = 'a request with a transfer coding other than chunked, such as gzip, together with a Content-Length'
BREAKS = 'a body in an unsupported transfer coding is delivered as if it was plain'
EDITS = [('wruster/src/http/mod.rs', 'if encoding[0] != "identity" {', 'if encoding[0] == "chunked" {')]
DEMO = r"""use wruster::http::Request;
fn main() {
    for e in ["chunked", "gzip", "gzip, chunked", "Chunked", "xx"] {
        let m = format!("POST / HTTP/1.1\r\nTransfer-Encoding: {}\r\nContent-Length: 3\r\n\r\nabc", e);
        assert!(Request::read_from_str(&m).is_err(), "{}", e);
    }
    for m in ["POST / HTTP/1.1\r\nTransfer-Encoding: identity\r\nContent-Length: 3\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"] {
        assert!(Request::read_from_str(m).unwrap().body.is_some());
    }
}
"""
