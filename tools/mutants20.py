"""breakage of kinds the other files do not have"""
L = "wruster/src/lib.rs"
M = "wruster/src/http/mod.rs"
HD = "wruster/src/http/headers.rs"
O = "wruster/src/streams/observable.rs"
C = "wruster/src/http/client/mod.rs"
CP = "wruster/src/http/client/connection_pool.rs"
H = "wruster_handlers/src/lib.rs"
T = "wruster/src/router/trie.rs"
R = "wruster/src/router/mod.rs"
MUTANTS = [
    ("nk-log-cut", "bad", "P01", [(M, 'debug!("request line parsed: {:?}", request_line);', 'debug!("request line parsed: {:?} {}", request_line, &request_line.uri[..1]);')]),
    ("nk-log-cut2", "bad", "P01", [(HD, 'debug!("header parsed: {}", header);', 'debug!("header parsed: {}", &header.value[..16.min(header.value.len())]);')]),
    ("nk-log-index", "bad", "P01", [(HD, 'debug!("header chunk read: {}", String::from_utf8_lossy(&line));', 'debug!("header chunk read: {}, {}", String::from_utf8_lossy(&line), line[1]);')]),
    ("nk-log-unwrap", "bad", "P01", [(HD, 'debug!("header line {}", String::from_utf8_lossy(&line));', 'debug!("header line {}", std::str::from_utf8(&line).unwrap());')]),
    ("nk-log-h31", "bad", "P32", [(H, "let", "let")]),
    ("nk-cap", "bad", "P01", [(M, """        let c = from.take(len as u64);
        let content = Box::new(c);
        let body = Body {""", """        let mut start: Vec<u8> = Vec::with_capacity(len);
        start.clear();
        let c = io::Cursor::new(start).chain(from.take(len as u64));
        let content = Box::new(c);
        let body = Body {""")]),
    ("nk-cap-vec", "bad", "P01", [(M, """        let len = match usize::from_str(len) {""", """        let pad = len.len() * 1024 * 1024 * 1024 * 1024;
        let spare: Vec<u8> = Vec::with_capacity(pad * 1024 * 1024);
        debug!("{}", spare.len());
        let len = match usize::from_str(len) {""")]),
    ("nk-len-u32", "bad", "P03", [(M, "let c = from.take(len as u64);", "let c = from.take(len as u32 as u64);")]),
    ("nk-len-both", "bad", "P03", [(M, "let len = match usize::from_str(len) {", "let len = match u32::from_str(len).map(|l| l as usize) {")]),
    ("nk-len-trim", "bad", "P03", [(M, "let len = match usize::from_str(len) {", "let len = match usize::from_str(len.trim_start_matches('0')) {")]),
    ("nk-len-hex", "bad", "P03", [(M, "let len = match usize::from_str(len) {", "let len = match usize::from_str_radix(len, 16) {")]),
    ("nk-bytes-key", "bad", "P22", [(O, "let key = list.next_key.fetch_add(1, Ordering::SeqCst);", "let key = list.items.read().unwrap().len();")]),
    ("nk-key-and", "bad", "P22", [(O, "let key = list.next_key.fetch_add(1, Ordering::SeqCst);", "let key = list.next_key.fetch_add(1, Ordering::SeqCst) % 1024;")]),
    ("nk-key-u8", "bad", "P22", [(O, "let key = list.next_key.fetch_add(1, Ordering::SeqCst);", "let key = list.next_key.fetch_add(1, Ordering::SeqCst) as u16 as usize;")]),
    ("nk-key-fa0", "bad", "P22", [(O, "let key = list.next_key.fetch_add(1, Ordering::SeqCst);", "let key = list.next_key.fetch_or(1, Ordering::SeqCst);")]),
    ("nk-uri-lossy", "bad", "P05", [(M, "uri: String::from(uri),", "uri: uri.replace('+', \" \"),")]),
    ("nk-uri-trunc", "bad", "P05", [(M, "uri: String::from(uri),", "uri: uri.chars().take(2048).collect(),")]),
    ("nk-uri-frag", "bad", "P05", [(M, "uri: String::from(uri),", "uri: uri.split('#').next().unwrap_or_default().to_string(),")]),
    ("nk-uri-cond", "bad", "P05", [(M, "uri: String::from(uri),", "uri: if uri.starts_with(\"http://\") { String::from(\"/\") } else { String::from(uri) },")]),
    ("nk-wr-cap", "bad", "P06 P07", [(M, "let src = &mut self.content.by_ref().take(self.content_length);", "let src = &mut self.content.by_ref().take(self.content_length.min(u32::MAX as u64));")]),
    ("nk-flush-cond", "bad", "P06", [(M, "io::copy(src, &mut dest).and_then(|copied| dest.flush().map(|_| copied))", "io::copy(src, &mut dest).and_then(|copied| if copied % 2 == 0 { dest.flush().map(|_| copied) } else { Ok(copied) })")]),
    ("nk-copied-ge", "bad", "P06 P07", [(M, "Ok(copied) if copied < self.content_length =>", "Ok(copied) if copied + 1 < self.content_length =>")]),
    ("nk-hd-limit", "bad", "P04", [(HD, """                Some(header) => {
                    headers.add(header);
                }""", """                Some(header) => {
                    if headers.iter().count() < 64 {
                        headers.add(header);
                    }
                }""")]),
    ("nk-hd-dedupe", "bad", "P04", [(HD, "        values.push(content);", "        if !values.contains(&content) {\n            values.push(content);\n        }")]),
    ("nk-hd-split", "bad", "P04", [(HD, "        values.push(content);", "        for v in content.split(',') {\n            values.push(v.to_string());\n        }")]),
    ("nk-hd-extend", "bad", "P04", [(HD, "        values.push(content);", "        values.insert(values.len().saturating_sub(1), content);")]),
    ("nk-run-clone", "bad", "P25", [(L, "    request.uri = String::from(normalized);\n", "    if request.method == http::HttpMethod::GET {\n        request.uri = String::from(normalized);\n    }\n")]),
    ("nk-prefix-q", "bad", "P25", [(L, "routes.get_prefix(String::from(normalized), request.method)", "routes.get_prefix(String::from(normalized.trim_end_matches('/')), request.method)")]),
    ("nk-route-dec", "bad", "P24 P25", [(L, "routes.get_prefix(String::from(normalized), request.method)", "routes.get_prefix(normalized.to_lowercase(), request.method)")]),
    ("nk-method-head", "bad", "P09", [(L, "routes.get_prefix(String::from(normalized), request.method)", "routes.get_prefix(String::from(normalized), if request.method == http::HttpMethod::HEAD { http::HttpMethod::GET } else { request.method })")]),
    ("nk-handle-expect", "bad", "P09", [(L, """    if let Some(mut request) = request {
        let body = request.body.as_mut();""", """    if let Some(mut request) = request.filter(|r| r.headers.get("Expect").is_none()) {
        let body = request.body.as_mut();""")]),
    ("nk-100", "bad", "P09", [(L, "            let response = run_action(&mut request, routes);", """            if request.headers.get("Expect").is_some() {
                let mut early = resp_stream.clone();
                let _ = early.write_all(b"HTTP/1.1 100 Continue\\r\\n\\r\\n");
            }
            let response = run_action(&mut request, routes);""")]),
    ("nk-resp-conn", "bad", "P09 P10", [(L, "            connection_open = persistent && !body_taken;", "            connection_open = persistent && !body_taken && response.headers.get(\"Connection\").is_none();")]),
    ("nk-open-len", "bad", "P10", [(L, "            connection_open = persistent && !body_taken;", "            connection_open = persistent && !body_taken && request.uri.len() < 4096;")]),
    ("nk-tmo-min", "bad", "P11", [(L, """    let write_timeout = Some(timeouts.write_response_timeout);

    let resp_stream""", """    let write_timeout = Some(timeouts.write_response_timeout.max(time::Duration::from_secs(1)));

    let resp_stream""")]),
    ("nk-tmo-zero", "bad", "P11", [(L, """    let read_timeout = Some(timeouts.read_request_timeout);
    let write_timeout = Some(timeouts.write_response_timeout);

    let resp_stream""", """    let read_timeout = Some(timeouts.read_request_timeout).filter(|t| *t > time::Duration::from_millis(10));
    let write_timeout = Some(timeouts.write_response_timeout);

    let resp_stream""")]),
    ("nk-acc-limit", "bad", "P13", [(L, "                info!(\"accepting connection from {}\", src_addr);", "                if active_streams.len() > 512 {\n                    continue;\n                }\n                info!(\"accepting connection from {}\", src_addr);")]),
    ("nk-acc-ip", "bad", "P13", [(L, "                info!(\"accepting connection from {}\", src_addr);", "                if src_addr.port() == 0 {\n                    break;\n                }\n                info!(\"accepting connection from {}\", src_addr);")]),
    ("nk-acc-nodelay", "bad", "P12", [(L, "                let cconfig = Arc::clone(&routes);", "                stream.set_nodelay(true).map_err(Box::new)?;\n                let cconfig = Arc::clone(&routes);")]),
    ("nk-acc-peer", "bad", "P12", [(L, "                let cconfig = Arc::clone(&routes);", "                debug!(\"local {}\", stream.local_addr().unwrap());\n                let cconfig = Arc::clone(&routes);")]),
    ("nk-acc-div", "bad", "P12", [(L, "                let cconfig = Arc::clone(&routes);", "                debug!(\"load {}\", 100 / active_streams.len());\n                let cconfig = Arc::clone(&routes);")]),
    ("nk-drain-one", "bad", "P14", [(L, "for p in pending {", "for p in pending.into_iter().take(64) {")]),
    ("nk-stop-once", "bad", "P14", [(L, "if stop.as_ref().load(Ordering::SeqCst) {", "if events.is_empty() && stop.as_ref().load(Ordering::SeqCst) {")]),
    ("nk-stop-cas", "bad", "P14", [(L, "        self.stop.as_ref().store(true, Ordering::SeqCst);", "        let _ = self.stop.compare_exchange(true, true, Ordering::SeqCst, Ordering::SeqCst);")]),
    ("nk-stop-cas-ok", "same", "P14", [(L, "        self.stop.as_ref().store(true, Ordering::SeqCst);", "        let _ = self.stop.compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst);")]),
    ("nk-stop-swap-ok", "same", "P14", [(L, "        self.stop.as_ref().store(true, Ordering::SeqCst);", "        self.stop.swap(true, Ordering::SeqCst);")]),
    ("nk-stop-or-ok", "same", "P14", [(L, "        self.stop.as_ref().store(true, Ordering::SeqCst);", "        self.stop.fetch_or(true, Ordering::SeqCst);")]),
    ("nk-stop-new", "bad", "P14", [(L, "        let stop = Arc::clone(&self.stop);\n        let timeouts = self.timeouts.clone();", "        let stop = Arc::new(AtomicBool::new(self.stop.load(Ordering::SeqCst)));\n        let timeouts = self.timeouts.clone();")]),
    ("nk-start-addr", "bad", "P15", [(L, "let listener = match net::TcpListener::bind(addr) {", "let listener = match net::TcpListener::bind(addr).or_else(|_| net::TcpListener::bind(\"127.0.0.1:0\")) {")]),
]
MUTANTS = [m for m in MUTANTS if m[0] != "nk-log-h31"]
