PROPERTY = 'P31'
NEEDS = 'a file of 4 GiB or more'
BREAKS = 'the announced length of a large file is its size modulo 4 GiB'
EDITS = [('wruster_handlers/src/lib.rs', '        value: metadata.len().to_string(),\n', '        value: (metadata.len() as u32).to_string(),\n')]
DEPS = 'wruster_handlers = { path = "@REPO@/wruster_handlers" }'
DEMO = r"""use wruster::http::{headers::Headers, *};
fn main() {
    let dir = std::env::temp_dir().join(format!("wvdemo-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let sizes = [0u64, 10, (1 << 32) - 1, 1 << 32, (1 << 33) + 7];
    let mut got = Vec::new();
    for n in sizes {
        let f = std::fs::File::create(dir.join("f.bin")).unwrap();
        f.set_len(n).unwrap();
        let req = Request { method: HttpMethod::GET, uri: "/f.bin".to_string(), version: "HTTP/1.1".to_string(), headers: Headers::new(), body: None };
        let r = wruster_handlers::serve_static(dir.to_str().unwrap(), &req);
        got.push((r.status == StatusCode::OK, r.headers.get("Content-Length").cloned(), r.body.map(|b| b.content_length)));
    }
    std::fs::remove_dir_all(&dir).unwrap();
    for (n, g) in sizes.iter().zip(got) {
        assert_eq!(g, (true, Some(vec![n.to_string()]), Some(*n)), "size {}", n);
    }
}
"""
