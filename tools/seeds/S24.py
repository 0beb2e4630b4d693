PROPERTY = 'P04'
NEEDS = 'a message that has the same header twice with the same value'
BREAKS = 'the second of two equal values of a header is dropped'
EDITS = [('wruster/src/http/headers.rs', '        values.push(content);\n', '        if values.last() != Some(&content) {\n            values.push(content);\n        }\n')]
DEMO = r"""use wruster::http::Request;
fn main() {
    for vals in [vec!["a"], vec!["a", "b"], vec!["a", "b", "a"], vec!["a", "a"], vec!["a", "a", "b", "b"]] {
        let mut m = String::from("GET / HTTP/1.1\r\n");
        for v in &vals { m += &format!("X-Thing: {}\r\n", v); }
        m += "\r\n";
        let r = Request::read_from_str(&m).unwrap();
        let got: Vec<&str> = r.headers.get("X-Thing").unwrap().iter().map(|x| x.as_str()).collect();
        assert_eq!(got, vals);
    }
}
"""
