"""more breakage of kinds the other files do not have"""
HD = "wruster/src/http/headers.rs"
M = "wruster/src/http/mod.rs"
C = "wruster/src/http/client/mod.rs"
CP = "wruster/src/http/client/connection_pool.rs"
CS = "wruster/src/streams/cancellable_stream.rs"
TS = "wruster/src/streams/timeout_stream.rs"
T = "wruster/src/router/trie.rs"
R = "wruster/src/router/mod.rs"
H = "wruster_handlers/src/lib.rs"
MUTANTS = [
    ("nl-recursive", "bad", "P01", [(HD, """        let mut headers = Self::new();
        // generic-message = start-line
        //                   *(message-header CRLF)
        //                   CRLF
        //                   [ message-body ]
        debug!("parsing headers");
        loop {
            let header = Header::read_from(from)?;
            match header {
                None => {
                    break;
                }
                Some(header) => {
                    headers.add(header);
                }
            };
        }
        debug!("headers parsed");
        Ok(headers)
    }
""", """        let mut headers = Self::new();
        Self::read_rest(from, &mut headers)?;
        Ok(headers)
    }

    fn read_rest<T: io::Read>(from: &mut io::BufReader<T>, headers: &mut Headers) -> Result<(), HttpError> {
        match Header::read_from(from)? {
            None => Ok(()),
            Some(header) => {
                headers.add(header);
                Self::read_rest(from, headers)
            }
        }
    }
""")]),
    ("nl-cl-peer", "bad", "P27", [(C, "            addr: addr.to_string(),", "            addr: response_conn.peer_addr().map(|a| a.to_string()).unwrap_or_else(|_| addr.to_string()),"), (C, "            conn: response_conn,", "            conn: response_conn.try_clone().map_err(HttpError::from)?,")]),
    ("nl-cl-lower", "bad", "P27", [(C, "pool.get(addr)", "pool.get(&addr.to_lowercase())")]),
    ("nl-cl-half", "bad", "P27", [(C, "let delimited = response.headers.get(\"Content-Length\").is_some();", "let delimited = response.headers.get(\"Content-Length\").is_some() || response.status == StatusCode::NoContent;")]),
    ("nl-cl-304", "bad", "P27", [(C, "reusable: persistent && delimited && !close,", "reusable: persistent && (delimited || !has_body) && !close,")]),
    ("nl-cl-close-first", "bad", "P27", [(C, "values.iter().any(|value| value.to_lowercase() == \"close\")", "values[0].to_lowercase() == \"close\"")]),
    ("nl-cl-retry", "bad", "P27", [(C, """        let response = match Response::read_from(stream) {
            Ok(response) => response,
            Err(err) => return Err(err),
        };""", """        let response = match Response::read_from(stream) {
            Ok(response) => response,
            Err(HttpError::ConnectionClosed) => {
                let again = Self::connect(addr)?;
                let again = TimeoutStream::from(again, Some(read_timeout), Some(write_timeout));
                Response::read_from(Box::new(again))?
            }
            Err(err) => return Err(err),
        };""")]),
    ("nl-cl-shut", "bad", "P28", [(C, "_ = connection.shutdown(std::net::Shutdown::Both)", "if Arc::strong_count(&connection) == 1 {\n                _ = connection.shutdown(std::net::Shutdown::Both)\n            }")]),
    ("nl-cl-shut-w", "bad", "P28", [(C, "std::net::Shutdown::Both", "std::net::Shutdown::Write")]),
    ("nl-cs-done-late", "bad", "P21", [(CS, """        self.done.store(true, Ordering::SeqCst);
        self.stream.shutdown(how)
""", """        self.done.store(how == Shutdown::Both, Ordering::SeqCst);
        self.stream.shutdown(how)
""")]),
    ("nl-cs-notify", "same", "P20 P21 P11 P36", [(CS, """        self.done.store(true, Ordering::SeqCst);
        self.stream.shutdown(how)
""", """        self.done.swap(true, Ordering::SeqCst);
        let outcome = self.stream.shutdown(how);
        if let Err(err) = &outcome {
            debug!("error shutting down: {}", err);
        }
        outcome
""")]),
    ("nl-cs-zero", "bad", "P20 P36", [(CS, "        if bytes_read == 0 {\n            return Err(io::Error::from(io::ErrorKind::ConnectionReset));\n        }\n", "")]),
    ("nl-cs-partial", "bad", "P20", [(CS, "        Ok(bytes_written)\n    }\n}\n\nimpl<T> io::Read for &", "        Ok(buf_len)\n    }\n}\n\nimpl<T> io::Read for &")]),
    ("nl-cs-wbreak", "bad", "P20", [(CS, "let write_buf = &buf[bytes_written..];", "let write_buf = &buf[bytes_written..buf_len.min(bytes_written + 16384)];\n                if write_buf.len() > 8192 { continue; }")]),
    ("nl-cs-werr", "bad", "P20", [(CS, """                    Err(err) => return Err(err),
                };
                break;
            }
        }
        Ok(bytes_written)""", """                    Err(_) if bytes_written > 0 => return Ok(buf_len),
                    Err(err) => return Err(err),
                };
                break;
            }
        }
        Ok(bytes_written)""")]),
    ("nl-cs-tmo-read", "bad", "P11", [(CS, "let timeout = &self.write_timeout.write().unwrap().clone();", "let timeout = &self.read_timeout.write().unwrap().or(*self.write_timeout.read().unwrap());")]),
    ("nl-cs-tmo-take", "bad", "P11", [(CS, "let timeout = &self.read_timeout.write().unwrap().clone();", "let timeout = &self.read_timeout.write().unwrap().take();")]),
    ("nl-cs-tmo-round", "bad", "P11", [(CS, "let timeout = &self.read_timeout.write().unwrap().clone();", "let timeout = &self.read_timeout.write().unwrap().map(|t| Duration::from_secs(t.as_secs() + 1));")]),
    ("nl-ts-restart", "bad", "P11", [(TS, "        let next_timeout = read.next_timeout();\n        if next_timeout.is_zero() {", "        let next_timeout = read.next_timeout().max(Duration::from_millis(1));\n        if next_timeout.is_zero() {")]),
    ("nl-ts-err-skip", "bad", "P11", [(TS, """        if let Err(err) = stream.set_read_timeout(Some(next_timeout)) {
            return io::Result::Err(err);
        }
        read.start();
        let stream = &mut self.stream;
        let res = stream.read(buf)""", """        stream.set_read_timeout(Some(next_timeout)).ok();
        read.start();
        let stream = &mut self.stream;
        let res = stream.read(buf)""")]),
    ("nl-ts-small", "bad", "P20", [(TS, "        let res = stream.read(buf).map_err(|err| {", "        let half = buf.len() - buf.len() / 2;\n        let res = stream.read(&mut buf[..half]).map(|n| if n == half { n + 1 } else { n }).map_err(|err| {")]),
    ("nl-tr-depth", "bad", "P24", [(T, """    fn add_value(&mut self, key: &[u8], value: T) {
        if key.is_empty() {""", """    fn add_value(&mut self, key: &[u8], value: T) {
        if key.is_empty() || (self.value.is_none() && key == b"/") {""")]),
    ("nl-tr-case", "bad", "P24", [(T, "        let next = key[0] as usize;", "        let next = key[0].to_ascii_lowercase() as usize;")]),
    ("nl-tr-mask", "bad", "P24", [(T, "        let next = key[0] as usize;", "        let next = (key[0] & 0x7f) as usize;")]),
    ("nl-tr-first", "bad", "P24", [(T, "            self.value = Some(value);", "            self.value.get_or_insert(value);")]),
    ("nl-tr-drop", "bad", "P24", [(T, "        child.add_value(&key[1..], value);\n        children[next] = Some(child);", "        child.add_value(&key[1..], value);\n        if child.value.is_some() || key.len() > 1 {\n            children[next] = Some(Node { children: Self::empty_children(), value: child.value.take() });\n        }")]),
    ("nl-rt-get0", "bad", "P24", [(R, "        actions[method as usize]\n            .as_ref()", "        actions[method as usize]\n            .as_ref()\n            .or(actions[0].as_ref())")]),
    ("nl-nm-prefix", "bad", "P25", [(R, "                Component::Normal(dir) => {\n                    normalized.push(dir);", "                Component::Normal(dir) => {\n                    if dir.is_empty() || dir == \"...\" {\n                        continue;\n                    }\n                    normalized.push(dir);")]),
    ("nl-nm-lossy", "bad", "P25", [(R, "                    normalized.push(dir);", "                    normalized.push(dir.to_string_lossy().trim());")]),
    ("nl-nm-root", "bad", "P25", [(R, "                        None => {\n                            return Err(\"invalid path\");\n                        }", "                        None => continue,")]),
    ("nl-hs-symlink", "bad", "P31", [(H, "let metadata = match fs::metadata(&path) {", "let metadata = match fs::symlink_metadata(&path) {")]),
    ("nl-hs-len0", "bad", "P31", [(H, "let body = Body::new(Some(mime_type), metadata.len(), content);", "let body = Body::new(Some(mime_type), metadata.len().saturating_sub(1), content);")]),
    ("nl-hs-perm", "bad", "P31", [(H, """            if let io::ErrorKind::NotFound = err.kind() {
                return Response::from_status(StatusCode::NotFound);
            }
            return Response::from_status(StatusCode::InternalServerError);
        }
    };
    let mime""", """            if let io::ErrorKind::NotFound | io::ErrorKind::PermissionDenied = err.kind() {
                return Response::from_status(StatusCode::NotFound);
            }
            return Response::from_status(StatusCode::InternalServerError);
        }
    };
    let mime""")]),
    ("nl-hs-index", "bad", "P31", [(H, "    path.push(uri);\n", "    path.push(uri);\n    if path.is_dir() {\n        path.push(\"index.html\");\n    }\n")]),
    ("nl-hs-dec", "bad", "P31", [(H, "    path.push(uri);\n", "    path.push(uri.replace(\"%20\", \" \"));\n")]),
    ("nl-hs-gz", "bad", "P31", [(H, "    path.push(uri);\n", "    path.push(uri);\n    let gz = path.with_extension(\"gz\");\n    if request.headers.get(\"Accept-Encoding\").is_some() && gz.exists() {\n        path = gz;\n    }\n")]),
    ("nl-hs-query", "bad", "P31", [(H, "    path.push(uri);\n", "    path.push(uri.split('?').next().unwrap_or(uri));\n")]),
    ("nl-lm-mutate", "bad", "P32", [(H, "        let response = handler(request);", "        request.uri.truncate(8000);\n        let response = handler(request);")]),
]
MUTANTS = [m for m in MUTANTS if m[0] not in ("nl-cs-wbreak", "nl-cs-zero")]
