PROPERTY = 'P02'
NEEDS = 'a connection that ends between two header lines, after at least one of them'
BREAKS = 'a message whose headers were cut at the end of a line is delivered as complete'
EDITS = [('wruster/src/http/headers.rs', '            let header = Header::read_from(from)?;\n', '            let header = match Header::read_from(from) {\n                Err(HttpError::ConnectionClosed) if !headers.headers.is_empty() => None,\n                header => header?,\n            };\n')]
DEMO = r"""use wruster::http::Request;
fn main() {
    let m = "POST /a HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n";
    for n in 0..m.len() {
        assert!(Request::read_from_str(&m[..n]).is_err(), "{:?}", &m[..n]);
    }
    Request::read_from_str(m).unwrap();
}
"""
