PROPERTY = 'P05'
NEEDS = 'a request target with a number sign in it'
BREAKS = 'the part of the target after a number sign is dropped, though targets are delivered as received'
EDITS = [('wruster/src/http/mod.rs', '            uri: String::from(uri),\n', "            uri: uri.split('#').next().unwrap_or_default().to_string(),\n")]
DEMO = r"""use wruster::http::Request;
fn main() {
    for u in ["/a", "/a?b#c", "/#", "*", "/a/#b/c", "/a%23b"] {
        let r = Request::read_from_str(&format!("GET {} HTTP/1.1\r\n\r\n", u)).unwrap();
        assert_eq!(r.uri, u);
    }
}
"""
