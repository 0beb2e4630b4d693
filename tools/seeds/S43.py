PROPERTY = 'P08'
NEEDS = 'a response with the status 305, or a copy of such a status'
BREAKS = 'a copy of the status Use Proxy is the status Not Modified'
EDITS = [('wruster/src/http/status.rs', '            Self::UseProxy => Self::UseProxy,', '            Self::UseProxy => Self::NotModified,')]
DEMO = r"""use wruster::http::*;
fn main() {
    for code in 100..600usize {
        let s = StatusCode::from(code);
        let c = s.clone();
        assert_eq!(usize::from(&s), code);
        assert_eq!(usize::from(&c), code, "copy");
        let mut out = Vec::new();
        Response::from_status(s).write(&mut out).unwrap();
        assert!(out.starts_with(format!("HTTP/1.1 {} ", code).as_bytes()), "{}", code);
    }
}
"""
