PROPERTY = 'P32'
NEEDS = 'a request with a body, handled by an action wrapped in the logging middleware'
BREAKS = 'the middleware reads the body of the request, so the action finds it empty'
EDITS = [('wruster_handlers/src/lib.rs', '        info!("request {:?}", request);\n', '        let mut content = Vec::new();\n        if let Some(body) = request.body.as_mut() {\n            let _ = body.read_to_end(&mut content);\n        }\n        info!("request {:?} {}", request, String::from_utf8_lossy(&content));\n')]
DEPS = 'wruster_handlers = { path = "@REPO@/wruster_handlers" }'
DEMO = r"""use std::io::Read;
use std::str::FromStr;
use wruster::{http::*, router::HttpHandler};
use wruster_handlers::log_middleware;
fn main() {
    let h: HttpHandler = log_middleware(Box::new(|r: &mut Request| {
        let mut s = String::new();
        r.body.as_mut().unwrap().read_to_string(&mut s).unwrap();
        Response::from_str(&s).unwrap()
    }));
    let mut r = Request::read_from_str("POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\nhello").unwrap();
    let mut resp = h(&mut r);
    let mut s = String::new();
    resp.body.as_mut().unwrap().read_to_string(&mut s).unwrap();
    assert_eq!(s, "hello");
}
"""
