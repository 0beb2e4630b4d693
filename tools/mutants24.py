"""conversations, once more"""
M = "wruster/src/http/mod.rs"
HD = "wruster/src/http/headers.rs"
OB = "wruster/src/streams/observable.rs"
TS = "wruster/src/streams/timeout_stream.rs"
PERS = """    let value = match request.headers.get("Connection") {
        None => "".to_string(),
        Some(values) => values[0].to_lowercase(),
    };
    if value == "close" {
        return false;
    }
"""
OPEN = "            connection_open = persistent && !body_taken;\n"
LOOP = """    let mut connection_open = true;
    while connection_open {
        let handle_stream = stream.clone();
        connection_open = handle_connection(
"""
ENS = """            if let Err(err) = body.ensure_read() {
                error!("error reading request body, error info: {}", err);
                return false;
            }
"""
ACT = "    let action = match routes.get_prefix(String::from(normalized), request.method) {\n        Some(action) => action,\n        None => return Response::from_status(StatusCode::NotFound),\n    };\n"
WR = "    if let Err(err) = response.write(&mut timeout_stream) {\n        error!(\n            \"error writing response to"
CP = "            _ => io::copy(src, to),\n"
LENS = """        match res {
            Err(err) => Err(HttpError::from(err)),
            Ok(copied) if copied < self.content_length"""
REQW = "        if self.body.is_none() && self.headers.get(\"Content-Length\").is_none() {\n"
MUTANTS = [
    ("cv-contains", "bad", "P10", [(L, PERS, PERS.replace('value == "close"', 'value.contains("close")'))]),
    ("cv-starts", "bad", "P10", [(L, PERS, PERS.replace('value == "close"', 'value.starts_with("close")'))]),
    ("cv-trim", "same", "P10 P09", [(L, PERS, PERS.replace("    let value = match", "    let value: String = match"))]),
    ("cv-map", "same", "P10 P09", [(L, PERS, """    let value = request
        .headers
        .get("Connection")
        .map(|values| values[0].to_lowercase())
        .unwrap_or_default();
    if value == "close" {
        return false;
    }
""")]),
    ("cv-eq-ignore", "same", "P10 P09", [(L, """        Some(values) => values[0].to_lowercase(),
    };
    if value == "close" {
        return false;
    }

    if request.version == "HTTP/1.1" || request.version == "HTTP/2" {
        return true;
    };

    if request.version == "HTTP/1.0" && value == "keep-alive" {
        return true;
    };
    false
""", """        Some(values) => values[0].clone(),
    };
    match request.version.as_str() {
        "HTTP/1.1" | "HTTP/2" => !value.eq_ignore_ascii_case("close"),
        "HTTP/1.0" => value.eq_ignore_ascii_case("keep-alive"),
        _ => false,
    }
""")]),
    ("cv-reuse", "same", "P10 P09", [(L, "            let persistent = is_connection_persistent(&request);", "            let persistent = request.is_connection_persistent();")]),
    ("cv-10-default", "bad", "P10", [(L, 'if request.version == "HTTP/1.0" && value == "keep-alive" {', 'if request.version == "HTTP/1.0" && !value.is_empty() {')]),
    ("cv-after", "bad", "P10", [(L, "            let persistent = is_connection_persistent(&request);\n            let has_body = request.body.is_some();\n            let response = run_action(&mut request, routes);\n", "            let has_body = request.body.is_some();\n            let response = run_action(&mut request, routes);\n            let persistent = is_connection_persistent(&request);\n")]),
    ("cv-resp-close", "bad", "P10", [(L, OPEN, "            connection_open = persistent && !body_taken && response.headers.get(\"Upgrade\").is_none();\n")]),
    ("cv-limit", "bad", "P10", [(L, LOOP, """    let mut connection_open = true;
    let mut served = 0;
    while connection_open && served < 1000 {
        served += 1;
        let handle_stream = stream.clone();
        connection_open = handle_connection(
""")]),
    ("cv-do", "same", "P10 P09 P11 P36", [(L, """        if let Err(err) = stream.flush() {
            error!("error flushing to: {}, {}", source_addr, err);
            return;
        }
        debug!("connection flushed");
    }
""", """        match stream.flush() {
            Ok(()) => debug!("connection flushed"),
            Err(err) => {
                error!("error flushing to: {}, {}", source_addr, err);
                return;
            }
        }
    }
""")]),
    ("cv-break", "same", "P10 P09 P11 P36", [(L, LOOP, """    let mut connection_open;
    loop {
        let handle_stream = stream.clone();
        connection_open = handle_connection(
"""), (L, "        debug!(\"connection flushed\");\n    }\n", "        debug!(\"connection flushed\");\n        if !connection_open {\n            break;\n        }\n    }\n")]),
    ("cv-405", "bad", "P09", [(L, ACT, ACT.replace("        None => return Response::from_status(StatusCode::NotFound),", "        None if request.method == HttpMethod::TRACE => return Response::from_status(StatusCode::NotImplemented),\n        None => return Response::from_status(StatusCode::NotFound),").replace("match routes.get_prefix(String::from(normalized), request.method)", "match routes.get_prefix(String::from(normalized), request.method)"))]),
    ("cv-head", "bad", "P09", [(L, ACT, ACT.replace("        None => return Response::from_status(StatusCode::NotFound),", "        None => match routes.get_prefix(String::from(normalized), HttpMethod::GET) {\n            Some(action) if request.method == HttpMethod::HEAD => action,\n            _ => return Response::from_status(StatusCode::NotFound),\n        },"))]),
    ("cv-100", "bad", "P09", [(L, WR, "    if response.status == StatusCode::NoContent {\n        return connection_open;\n    }\n" + WR)]),
    ("cv-ens-after", "bad", "P09", [(L, ENS, "            if connection_open && body.content_length < 1 << 20 {\n" + ENS.replace("\n                return false;", "\n                return false;") + "            }\n")]),
    ("cv-ens-cont", "bad", "P09", [(L, ENS, "            if let Err(err) = body.ensure_read() {\n                error!(\"error reading request body, error info: {}\", err);\n            }\n")]),
    ("cv-ens-after2", "same", "P09 P10", [(L, ENS, "            match body.ensure_read() {\n                Ok(()) => debug!(\"body read\"),\n                Err(err) => {\n                    error!(\"error reading request body, error info: {}\", err);\n                    return false;\n                }\n            }\n")]),
    ("cv-busy-eof", "bad", "P02", [(M, "        if method.is_empty() {\n            return Err(ConnectionClosed);\n        }\n", "        while method.is_empty() {\n            from.read_until(b' ', &mut method)\n                .map_err(HttpError::from)?;\n        }\n")]),
    ("cv-crlf-skip", "bad", "P02", [(M, "        if method.is_empty() {\n            return Err(ConnectionClosed);\n        }\n", "        while method.iter().all(|b| b.is_ascii_whitespace()) {\n            method.clear();\n            from.read_until(b' ', &mut method)\n                .map_err(HttpError::from)?;\n        }\n")]),
    ("cv-eof-version", "bad", "P02 P01 P05", [(M, "        if version[version.len() - 2] != (b'\\r') {\n            return Err(InvalidRequest(\"invalid request line\".to_string()));\n        }\n", "        if version[version.len() - 2] != (b'\\r') && version.ends_with(b\"\\n\") {\n            return Err(InvalidRequest(\"invalid request line\".to_string()));\n        }\n")]),
    ("cv-copy-retry", "bad", "P06 P07", [(M, CP, "            _ => match io::copy(src, to) {\n                Err(err) if err.kind() == io::ErrorKind::WouldBlock => io::copy(src, to),\n                res => res,\n            },\n")]),
    ("cv-copy-ign", "bad", "P06 P07", [(M, LENS, """        match res {
            Err(err) if err.kind() == io::ErrorKind::BrokenPipe => Ok(()),
            Err(err) => Err(HttpError::from(err)),
            Ok(copied) if copied < self.content_length""")]),
    ("cv-bufw-small", "bad", "P06", [(M, CP, "            _ => {\n                let mut dest = BufWriter::new(to);\n                io::copy(src, &mut dest)\n            }\n")]),
    ("cv-bufw-q", "same", "P06 P07 P36 P09", [(M, CP, "            _ => {\n                let mut dest = BufWriter::new(to);\n                io::copy(src, &mut dest).and_then(|copied| dest.flush().map(|_| copied))\n            }\n")]),
    ("cv-req-len", "bad", "P07", [(M, REQW, "        if self.body.is_none() && self.headers.get(\"Content-Length\").is_none() && self.method != HttpMethod::GET {\n")]),
    ("cv-req-len2", "bad", "P07", [(M, REQW, "        if self.headers.get(\"Content-Length\").is_none() {\n")]),
    ("cv-drain-some", "bad", "P22", [(OB, "items.drain().map(|x| x.1).collect()", "items.drain().map(|x| x.1).take(1024).collect()")]),
    ("cv-drain-filter", "bad", "P22", [(OB, "items.drain().map(|x| x.1).collect()", "items.drain().map(|x| x.1).filter(|x| x.strong_count() == 1).collect()")]),
    ("cv-drain-live", "same", "P22 P14", [(OB, "items.drain().map(|x| x.1).collect()", "items.drain().map(|(_, stream)| stream).collect::<Vec<_>>()")]),
    ("cv-drain-take", "same", "P22 P14", [(OB, "items.drain().map(|x| x.1).collect()", "std::mem::take(&mut *items).into_iter().map(|x| x.1).collect()")]),
    ("cv-drain-for", "same", "P22 P14", [(OB, "        items.drain().map(|x| x.1).collect()", "        let mut streams = Vec::with_capacity(items.len());\n        for (_, stream) in items.drain() {\n            streams.push(stream);\n        }\n        streams")]),
    ("cv-key-len", "bad", "P22", [(OB, "let key = list.next_key.fetch_add(1, Ordering::SeqCst);", "let key = list.items.read().unwrap().len();")]),
    ("cv-key-mod", "bad", "P22", [(OB, "let key = list.next_key.fetch_add(1, Ordering::SeqCst);", "let key = list.next_key.fetch_add(1, Ordering::SeqCst) % 65536;")]),
    ("cv-key-load", "bad", "P22", [(OB, "let key = list.next_key.fetch_add(1, Ordering::SeqCst);", "let key = list.next_key.load(Ordering::SeqCst);\n        list.next_key.store(key + 1, Ordering::SeqCst);")]),
]
