PROPERTY = 'P07'
NEEDS = 'a message with a header that has several values'
BREAKS = 'the values of a header are written in the reverse of the order in which they were added'
EDITS = [('wruster/src/http/headers.rs', 'for content in h.1.iter() {', 'for content in h.1.iter().rev() {')]
DEMO = r"""use wruster::http::headers::{Header, Headers};
fn main() {
    for vals in [vec!["a"], vec!["a", "b"], vec!["c", "a", "b"]] {
        let mut h = Headers::new();
        for v in &vals { h.add(Header { name: "Via".to_string(), value: v.to_string() }); }
        let mut out = Vec::new();
        h.write(&mut out).unwrap();
        let want: String = vals.iter().map(|v| format!("Via: {}\r\n", v)).collect::<String>() + "\r\n";
        assert_eq!(String::from_utf8(out).unwrap(), want);
    }
}
"""
