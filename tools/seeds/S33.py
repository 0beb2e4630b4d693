PROPERTY = 'P26'
NEEDS = 'a body whose type has parameters, such as a charset'
BREAKS = 'a request made from a body announces its type without the parameters'
EDITS = [('wruster/src/http/mod.rs', '                value: content_type.to_string(),\n', '                value: content_type.essence_str().to_string(),\n')]
DEPS = 'mime="*"'
DEMO = r"""use std::io::Cursor;
use wruster::http::*;
fn main() {
    for t in ["text/plain", "text/plain; charset=utf-8", "multipart/form-data; boundary=xyz", "image/svg+xml"] {
        let b = Body::new(Some(t.parse().unwrap()), 2, Box::new(Cursor::new("ab")));
        let r = Request::from_body(b, HttpMethod::POST, "/");
        let got = &r.headers.get("Content-Type").unwrap()[0];
        let want: mime::Mime = t.parse().unwrap();
        assert_eq!(got.parse::<mime::Mime>().unwrap(), want);
    }
}
"""
