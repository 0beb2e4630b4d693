MUTANTS = [
    # ---- no panic (P01)
    ("np-colon-unchecked", "bad", "P01", [(HH, "        if i >= line.len() || line[i] != b':' {", "        if line[i] != b':' {")]),
    ("np-len-underflow", "bad", "P01", [(HH, "        let header_value_length = line.len() - header_value_start;\n        if header_value_length < 1 {", "        let header_value_length = line.len() - header_value_start - 1;\n        if header_value_length < 1 {")]),
    ("np-crlf-short", "bad", "P01", [(HH, "            if len < 2 {\n                continue;\n            }\n", "")]),
    ("np-crlf-1", "bad", "P01", [(HH, "            if len < 2 {", "            if len < 1 {")]),
    ("np-assert", "bad", "P01", [(HH, "        assert!(line.len() >= 2);", "        assert!(line.len() > 2);")]),
    ("np-method-empty", "bad", "P01", [(HM, "        if method.is_empty() {\n            return Err(ConnectionClosed);\n        }\n        if method.len() < 2 {", "        if method.len() == 1 {")]),
    ("np-version-short", "bad", "P01", [(HM, "        if version.len() < 3 {", "        if version.is_empty() {")]),
    ("np-utf8", "bad", "P01", [(HM, "        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);", "        let uri = std::str::from_utf8(&uri[..uri.len() - 1]).unwrap();")]),
    ("np-status-unwrap", "bad", "P01", [(HM, "        let status_code = match status_code.parse::<usize>() {\n            Err(error) => return Err(Unknown(error.to_string())),\n            Ok(code) => code,\n        };", "        let status_code = status_code.parse::<usize>().unwrap();")]),
    ("np-reason", "bad", "P01", [(HM, "        if reason_phrase.len() < 3 {", "        if reason_phrase.is_empty() {")]),
    ("np-version-parts", "bad", "P01", [(HM, "        if digits_parts.len() != 2 {", "        if digits_parts.len() > 2 {")]),
    ("np-te-index", "bad", "P01", [(HM, "            if encoding[0] != \"identity\" {", "            if encoding[1] != \"identity\" {")]),
    ("np-len-add", "bad", "P01", [(HM, "        if len == 0 {\n            return Ok(None);\n        }\n        let content_type", "        if len + 1 == 1 {\n            return Ok(None);\n        }\n        let content_type")]),
    ("np-mime-unwrap", "bad", "P01", [(HM, """                let mtype: mime::Mime = match types[0].parse() {
                    Ok(t) => t,
                    Err(err) => {
                        let msg = format!("invalid Content-Type header, {:?}, {}", types, err);
                        return Err(Unknown(msg));
                    }
                };
                Some(mtype)""", "                Some(types[0].parse::<mime::Mime>().unwrap())")]),
    ("np-body-left", "bad", "P01", [(HM, "        if self.bytes_read >= self.content_length {\n            return Ok(());\n        }\n        let n = self.content_length", "        let n = self.content_length")]),
    ("np-remove", "bad", "P01", [(HM, "        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);", "        let _ = uri.remove(1000);\n        let uri = String::from_utf8_lossy(&uri);")]),
    ("np-headers-novalue", "bad", "P01", [(HH, "        values.push(content);", "        if !content.is_empty() {\n            values.push(content);\n        }")]),
    ("np-split-cut", "bad", "P01", [(HM, "        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);", "        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);\n        let uri = String::from(&uri[..uri.len().min(4096)]);")]),
    ("np-same-pop", "same", "P05 P01 P02 P03 P04 P09", [(HM, "        let method = String::from_utf8_lossy(&method[..method.len() - 1]);", "        method.pop();\n        let method = String::from_utf8_lossy(&method);")]),
    ("np-same-slices", "same", "P05 P01 P02 P03 P04 P09", [(HM, """        if version[version.len() - 2] != (b'\\r') {
            return Err(InvalidRequest("invalid request line".to_string()));
        }
        let version = String::from_utf8_lossy(&version[..version.len() - 2]);
""", """        let end = version.len() - 2;
        let (text, rest) = version.split_at(end);
        if rest[0] != b'\\r' {
            return Err(InvalidRequest("invalid request line".to_string()));
        }
        let version = String::from_utf8_lossy(text);
""")]),
    ("np-same-position", "same", "P01 P02 P03 P04", [(HH, """        let mut name = String::new();
        let mut i = 0;
        while i < line.len() {
            let c = line[i] as char;
            if !c.is_valid_token_char() {
                break;
            };
            name.push(c);
            i += 1;
        }
""", """        let i = line
            .iter()
            .position(|c| !(*c as char).is_valid_token_char())
            .unwrap_or(line.len());
        let mut name: String = line[..i].iter().map(|c| *c as char).collect();
""")]),
    ("np-same-for", "same", "P01 P02 P03 P04", [(HH, """        let mut i = 0;
        while i < line.len() {
            let c = line[i] as char;
            if !c.is_valid_token_char() {
                break;
            };
            name.push(c);
            i += 1;
        }
""", """        let mut i = 0;
        for octet in line {
            let c = *octet as char;
            if !c.is_valid_token_char() {
                break;
            };
            name.push(c);
            i += 1;
        }
""")]),
    ("np-same-get", "same", "P01 P02 P03 P04", [(HH, "        if i >= line.len() || line[i] != b':' {", "        if line.get(i) != Some(&b':') {")]),
    ("np-same-value", "same", "P01 P02 P03 P04", [(HH, """        for j in header_value_start..line.len() {
            let c = line[j] as char;
            if !c.is_valid_field_content() {
                debug!(
                    "invalid header value line: {}, char {}, position {}",
                    String::from_utf8_lossy(line),
                    c,
                    j
                );
""", """        for (j, octet) in line[header_value_start..].iter().enumerate() {
            let c = *octet as char;
            if !c.is_valid_field_content() {
                debug!(
                    "invalid header value line: {}, char {}, position {}",
                    String::from_utf8_lossy(line),
                    c,
                    j
                );
""")]),
    ("np-same-ends", "same", "P01 P02 P03 P04", [(HH, """            let len = line.len();
            if len < 2 {
                continue;
            }
            if line[len - 1] == b'\\n' && line[len - 2] == b'\\r' {
                break;
            }
""", """            if line.ends_with(b"\\r\\n") {
                break;
            }
""")]),
    ("np-same-parse", "same", "P01 P02 P03 P04", [(HH, """        assert!(line.len() >= 2);
        if line.len() == 2 {
            return Ok(None);
        };
""", """        if line.len() <= 2 {
            return Ok(None);
        };
""")]),

    # ---- cut short (P02)
    ("eof-header-loop", "bad", "P02", [(HH, "            if read == 0 {", "            if read == 0 && line.is_empty() {")]),
    ("eof-header-len", "bad", "P02", [(HH, "            line.append(&mut header_chunk);", "            line.append(&mut header_chunk);\n            let read = line.len();").__class__((HH, "            if read == 0 {\n                // The peer closed the connection before sending the whole header.\n                return Err(HttpError::ConnectionClosed);\n            }\n            line.append(&mut header_chunk);", "            line.append(&mut header_chunk);\n            if line.is_empty() {\n                return Err(HttpError::ConnectionClosed);\n            }"))]),
    ("eof-header-end", "bad", "P02", [(HH, "                return Err(HttpError::ConnectionClosed);\n            }\n            line.append", "                return Ok(None);\n            }\n            line.append")]),
    ("eof-uri-unchecked", "bad", "P02", [(HM, "        if uri.len() < 2 {\n            return Err(InvalidRequest(\"invalid request line\".to_string()));\n        };\n", "        if uri.is_empty() {\n            uri.extend_from_slice(b\"/ \");\n        };\n")]),
    ("eof-uri-retry", "bad", "P02", [(HM, "        if let Err(err) = from.read_until(b' ', &mut uri) {\n            return Err(HttpError::from(err));\n        };", "        while let Err(err) = from.read_until(b' ', &mut uri) {\n            debug!(\"{}\", err);\n        }")]),
    ("eof-status-ignored", "bad", "P02", [(HM, "        if let Err(err) = from.read_until(b'\\n', &mut reason_phrase) {\n            return Err(HttpError::from(err));\n        };\n        if reason_phrase.len() < 3 {\n            return Err(Unknown(String::from(\"invalid reason phrase\")));\n        };", "        if from.read_until(b'\\n', &mut reason_phrase).is_err() || reason_phrase.len() < 3 {\n            reason_phrase = b\"-\\r\\n\".to_vec();\n        };")]),
    ("eof-method-retry", "bad", "P02", [(HM, "        from.read_until(b' ', &mut method)\n            .map_err(HttpError::from)?;\n        if method.is_empty() {\n            return Err(ConnectionClosed);\n        }", "        while method.is_empty() {\n            from.read_until(b' ', &mut method)\n                .map_err(HttpError::from)?;\n        }")]),
    ("eof-headers-optional", "bad", "P02", [(HM, "        let headers = Headers::read_from(&mut reader)?;", "        let headers = Headers::read_from(&mut reader).unwrap_or_else(|_| Headers::new());")]),
    ("eof-same-helper", "same", "P05 P01 P02 P03 P04 P09", [(HM, "        let mut uri = Vec::new();\n        if let Err(err) = from.read_until(b' ', &mut uri) {\n            return Err(HttpError::from(err));\n        };\n        if uri.len() < 2 {\n            return Err(InvalidRequest(\"invalid request line\".to_string()));\n        };\n", "        let uri = word(from)?;\n"), (HM, "impl Body {\n    /**\n    Creates a new", "fn word<T: io::Read>(from: &mut BufReader<T>) -> Result<Vec<u8>, HttpError> {\n    let mut word = Vec::new();\n    from.read_until(b' ', &mut word)\n        .map_err(|err| HttpError::from(err))?;\n    if word.len() >= 2 {\n        Ok(word)\n    } else {\n        Err(InvalidRequest(\"invalid request line\".to_string()))\n    }\n}\n\nimpl Body {\n    /**\n    Creates a new")]),
    ("eof-same-match", "same", "P01 P02 P03 P04 P09", [(HH, "            if read == 0 {\n                // The peer closed the connection before sending the whole header.\n                return Err(HttpError::ConnectionClosed);\n            }\n            line.append(&mut header_chunk);", "            match read {\n                0 => return Err(HttpError::ConnectionClosed),\n                _ => line.append(&mut header_chunk),\n            }")]),
    ("eof-same-direct", "same", "P01 P02 P03 P04", [(HH, "            let mut header_chunk = Vec::<u8>::new();\n", ""), (HH, ".read_until(b'\\n', &mut header_chunk)", ".read_until(b'\\n', &mut line)"), (HH, "            line.append(&mut header_chunk);\n", "")]),
    ("eof-same-ends", "same", "P01 P02 P03 P04", [(HH, "            let len = line.len();\n            if len < 2 {\n                continue;\n            }\n            if line[len - 1] == b'\\n' && line[len - 2] == b'\\r' {\n                break;\n            }\n", "            if line.ends_with(b\"\\r\\n\") {\n                break;\n            }\n")]),
    ("eof-same-while", "same", "P01 P02 P03 P04", [(HH, "            match header {\n                None => {\n                    break;\n                }\n                Some(header) => {\n                    headers.add(header);\n                }\n            }", "            if let Some(header) = header {\n                headers.add(header);\n            } else {\n                break;\n            }")]),

    # ---- framing (P03)
    ("fr-te-contains", "bad", "P03", [(HM, "            if encoding[0] != \"identity\" {", "            if !encoding[0].contains(\"identity\") {")]),
    ("fr-te-many", "bad", "P03", [(HM, "            if encoding.len() != 1 {\n                let msg = \"invalid Transfer", "            if encoding.is_empty() {\n                let msg = \"invalid Transfer")]),
    ("fr-te-chunked", "bad", "P03", [(HM, "            if encoding[0] != \"identity\" {", "            if encoding[0] == \"chunked\" {")]),
    ("fr-te-after", "bad", "P03", [(HM, "        if let Some(encoding) = headers.get(\"Transfer-Encoding\") {", "        if headers.get(\"Content-Length\").is_none() {\n            return Ok(None);\n        }\n        if let Some(encoding) = headers.get(\"Transfer-Encoding\") {")]),
    ("fr-cl-many", "bad", "P03", [(HM, "                if lengths.len() != 1 {", "                if lengths.is_empty() {")]),
    ("fr-cl-last", "bad", "P03", [(HM, "                &lengths[0]\n", "                lengths.last().unwrap()\n"), (HM, "                if lengths.len() != 1 {", "                if lengths.is_empty() {")]),
    ("fr-cl-bad-none", "bad", "P03", [(HM, "                let msg = format!(\"invalid Content-Length header, {}\", err);\n                return Err(Unknown(msg));", "                debug!(\"{}\", err);\n                return Ok(None);")]),
    ("fr-cl-off", "bad", "P03", [(HM, "            content_length: len as u64,", "            content_length: len as u64 + 1,")]),
    ("fr-take-less", "bad", "P03", [(HM, "        let c = from.take(len as u64);", "        let c = from.take(len as u64 - 1);")]),
    ("fr-take-u32", "bad", "P03", [(HM, "        let c = from.take(len as u64);", "        let c = from.take(len as u32 as u64);")]),
    ("fr-no-take", "bad", "P03", [(HM, "        let c = from.take(len as u64);", "        let c = from;")]),
    ("fr-bytes-read", "bad", "P03", [(HM, "            content_length: len as u64,\n            bytes_read: 0,", "            content_length: len as u64,\n            bytes_read: len as u64,")]),
    ("fr-min", "bad", "P03", [(HM, "        let c = from.take(len as u64);", "        let len = len.min(1 << 30);\n        let c = from.take(len as u64);")]),
    ("fr-zero-some", "bad", "P03", [(HM, "        if len == 0 {\n            return Ok(None);\n        }\n        let content_type", "        let content_type")]),
    ("fr-small-none", "bad", "P03", [(HM, "        if len == 0 {\n            return Ok(None);\n        }\n        let content_type", "        if len <= 1 {\n            return Ok(None);\n        }\n        let content_type")]),
    ("fr-type-dropped", "bad", "P03", [(HM, "                    Err(err) => {\n                        let msg = format!(\"invalid Content-Type header, {:?}, {}\", types, err);\n                        return Err(Unknown(msg));\n                    }\n                };\n                Some(mtype)", "                    Err(err) => {\n                        debug!(\"{}\", err);\n                        return Err(Unknown(String::new()));\n                    }\n                };\n                let _ = mtype;\n                None")]),
    ("fr-get-requires-body", "bad", "P03", [(HM, "            None => return Ok(None),\n            Some(lengths)", "            None => return Err(Unknown(String::from(\"length required\"))),\n            Some(lengths)")]),
    ("fr-fresh-reader", "bad", "P03", [(HM, "        let body = Body::read_from(reader, &headers)?;\n        debug!(\"body read", "        let body = Body::read_from(reader.into_inner(), &headers)?;\n        debug!(\"body read")]),
    ("fr-body-lost", "bad", "P03", [(HM, "            headers,\n            body,\n        };\n        debug!(\"request parsed", "            headers,\n            body: body.filter(|b| b.content_length < 1 << 31),\n        };\n        debug!(\"request parsed")]),
    ("fr-skip-short", "bad", "P03", [(HM, "        let n = self.content_length - self.bytes_read;", "        let n = (self.content_length - self.bytes_read).min(1 << 16);")]),
    ("fr-skip-early", "bad", "P03", [(HM, "        if self.bytes_read >= self.content_length {\n            return Ok(());", "        if self.bytes_read + 1 >= self.content_length {\n            return Ok(());")]),
    ("fr-skip-err", "bad", "P03", [(HM, "            Ok(_) => Ok(()),\n            Err(err) => Err(HttpError::from(err)),\n        }\n    }\n\n    /**\n    Creates a Body", "            Ok(_) => Ok(()),\n            Err(err) => {\n                debug!(\"{}\", err);\n                Ok(())\n            }\n        }\n    }\n\n    /**\n    Creates a Body")]),
    ("fr-read-uncounted", "bad", "P03", [(HM, "                self.bytes_read += bytes_read as u64;", "                if bytes_read == buf.len() {\n                    self.bytes_read += bytes_read as u64;\n                }")]),
    ("fr-read-overcounted", "bad", "P03", [(HM, "                self.bytes_read += bytes_read as u64;", "                self.bytes_read += buf.len() as u64;")]),
    ("fr-same-pattern", "same", "P01 P03", [(HM, """            if encoding.len() != 1 {
                let msg = "invalid Transfer-Encoding header".to_string();
                return Err(Unknown(msg));
            }
            if encoding[0] != "identity" {
                let msg = format!("Transfer-Encoding: {} is not supported", encoding[0]);
                return Err(Unknown(msg));
            }
""", """            match encoding.as_slice() {
                [one] if one == "identity" => {}
                _ => {
                    let msg = format!("Transfer-Encoding: {:?} is not supported", encoding);
                    return Err(Unknown(msg));
                }
            }
""")]),
    ("fr-same-helper", "same", "P01 P03", [(HM, """        let len = match headers.get("Content-Length") {
            None => return Ok(None),
            Some(lengths) => {
                if lengths.len() != 1 {
                    let msg = String::from("invalid Content-Length header");
                    return Err(Unknown(msg));
                }
                &lengths[0]
            }
        };

        let len = match usize::from_str(len) {
            Err(err) => {
                let msg = format!("invalid Content-Length header, {}", err);
                return Err(Unknown(msg));
            }
            Ok(size) => size,
        };
        if len == 0 {
            return Ok(None);
        }
""", """        let len = match Self::announced(headers)? {
            None | Some(0) => return Ok(None),
            Some(len) => len,
        };
"""), (HM, "    /**\n    Ensures the content length", """    fn announced(headers: &Headers) -> Result<Option<u64>, HttpError> {
        let lengths = match headers.get("Content-Length") {
            None => return Ok(None),
            Some(lengths) => lengths,
        };
        if let [len] = &lengths[..] {
            len.parse::<u64>()
                .map(Some)
                .map_err(|err| Unknown(format!("invalid Content-Length header, {}", err)))
        } else {
            Err(Unknown(String::from("invalid Content-Length header")))
        }
    }

    /**
    Ensures the content length""")]),
    ("fr-same-type", "same", "P01 P03", [(HM, """        let content_type = match headers.get("Content-Type") {
            None => None,
            Some(types) => {
                if types.is_empty() {
                    let msg = format!("invalid Content-Type header, {:?}", types);
                    return Err(Unknown(msg));
                };
                let mtype: mime::Mime = match types[0].parse() {
                    Ok(t) => t,
                    Err(err) => {
                        let msg = format!("invalid Content-Type header, {:?}, {}", types, err);
                        return Err(Unknown(msg));
                    }
                };
                Some(mtype)
            }
        };
""", """        let content_type = match headers.get("Content-Type").and_then(|types| types.first()) {
            None => None,
            Some(text) => Some(text.parse::<mime::Mime>().map_err(|err| {
                Unknown(format!("invalid Content-Type header, {}, {}", text, err))
            })?),
        };
""")]),
    ("fr-same-read", "same", "P01 P03", [(HM, """        match self.content.read(buf) {
            Ok(bytes_read) => {
                self.bytes_read += bytes_read as u64;
                Ok(bytes_read)
            }
            Err(err) => Err(err),
        }
""", """        let bytes_read = self.content.read(buf)?;
        self.bytes_read += bytes_read as u64;
        Ok(bytes_read)
""")]),
    ("fr-same-read-inspect", "same", "P01 P03", [(HM, """        match self.content.read(buf) {
            Ok(bytes_read) => {
                self.bytes_read += bytes_read as u64;
                Ok(bytes_read)
            }
            Err(err) => Err(err),
        }
""", """        let result = self.content.read(buf);
        if let Ok(n) = &result {
            self.bytes_read += *n as u64;
        }
        result
""")]),
    ("fr-same-skip", "same", "P01 P03 P09", [(HM, """        let n = self.content_length - self.bytes_read;
        match io::copy(&mut self.content.by_ref().take(n), &mut io::sink()) {
            Ok(_) => Ok(()),
            Err(err) => Err(HttpError::from(err)),
        }
""", """        let mut rest = self
            .content
            .by_ref()
            .take(self.content_length.saturating_sub(self.bytes_read));
        io::copy(&mut rest, &mut io::sink()).map_err(HttpError::from)?;
        Ok(())
""")]),
    ("fr-same-skip-self", "same", "P01 P03 P09", [(HM, """        let n = self.content_length - self.bytes_read;
        match io::copy(&mut self.content.by_ref().take(n), &mut io::sink()) {
            Ok(_) => Ok(()),
            Err(err) => Err(HttpError::from(err)),
        }
""", """        io::copy(&mut self.content, &mut io::sink())
            .map(|_| ())
            .map_err(HttpError::from)
""")]),
    ("fr-same-message", "same", "P05 P01 P02 P03", [(HM, """        let body = Body::read_from(reader, &headers)?;
        debug!("body read: {:?}", body);

        let request = Request {
            method: request_line.method,
            uri: request_line.uri,
            version: request_line.version,
            headers,
            body,
        };
        debug!("request parsed: {:?}", request);
        Ok(request)
""", """        let HttpRequestLine {
            method,
            uri,
            version,
        } = request_line;
        Body::read_from(reader, &headers).map(|body| Request {
            method,
            uri,
            version,
            headers,
            body,
        })
""")]),

    # ---- start lines (P05)
    ("sl-method-case", "bad", "P05", [(HM, "        let method = match HttpMethod::from_str(&method) {", "        let method = match HttpMethod::from_str(&method.to_uppercase()) {")]),
    ("sl-method-trim", "bad", "P05", [(HM, "        let method = match HttpMethod::from_str(&method) {", "        let method = match HttpMethod::from_str(method.trim()) {")]),
    ("sl-method-default", "bad", "P05", [(HM, "            Err(err) => return Err(InvalidRequest(err)),\n            Ok(method) => method,", "            Err(err) if method.len() > 7 => return Err(InvalidRequest(err)),\n            Err(_) => HttpMethod::GET,\n            Ok(method) => method,")]),
    ("sl-method-kind", "bad", "P05", [(HM, "            Err(err) => return Err(InvalidRequest(err)),", "            Err(err) => return Err(Unknown(err)),")]),
    ("sl-uri-lower", "bad", "P05", [(HM, "            uri: String::from(uri),", "            uri: uri.to_lowercase(),")]),
    ("sl-uri-frag", "bad", "P05", [(HM, "            uri: String::from(uri),", "            uri: String::from(uri.split('#').next().unwrap_or(\"\")),")]),
    ("sl-uri-cut", "bad", "P05", [(HM, "        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);", "        let uri = String::from_utf8_lossy(&uri[..(uri.len() - 1).min(8000)]);")]),
    ("sl-version-cut", "bad", "P05", [(HM, "        let version = String::from_utf8_lossy(&version[..version.len() - 2]);", "        let version = String::from_utf8_lossy(&version[..version.len() - 1]);")]),
    ("sl-no-cr", "bad", "P05", [(HM, "        if version[version.len() - 2] != (b'\\r') {", "        if version[version.len() - 1] != (b'\\n') {")]),
    ("sl-cr-any", "bad", "P05", [(HM, "        if version[version.len() - 2] != (b'\\r') {", "        if !version.contains(&b'\\r') {")]),
    ("sl-delim", "bad", "P05", [(HM, "        from.read_until(b'\\n', &mut version)", "        from.read_until(b'\\r', &mut version)")]),
    ("sl-swap", "bad", "P05", [(HM, "            uri: request_line.uri,\n            version: request_line.version,", "            uri: request_line.version,\n            version: request_line.uri,")]),
    ("sl-blank-lines", "bad", "P05", [(HM, "        if method.is_empty() {\n            return Err(ConnectionClosed);\n        }", "        if method.is_empty() {\n            return Err(ConnectionClosed);\n        }\n        if method.starts_with(b\"\\r\\n\") {\n            method.drain(..2);\n        }")]),
    ("sl-status-len", "bad", "P05", [(HM, "        if status_code.len() != 4 {", "        if status_code.len() < 4 {")]),
    ("sl-status-clamp", "bad", "P05", [(HM, "            Ok(code) => code,\n        };\n        let status_code = StatusCode::from(status_code);", "            Ok(code) => code,\n        };\n        let status_code = StatusCode::from(status_code.max(100));")]),
    ("sl-status-default", "bad", "P05", [(HM, "            Err(error) => return Err(Unknown(error.to_string())),\n            Ok(code) => code,", "            Err(error) => {\n                debug!(\"{}\", error);\n                500\n            }\n            Ok(code) => code,")]),
    ("sl-status-hex", "bad", "P05", [(HM, "        let status_code = match status_code.parse::<usize>() {", "        let status_code = match usize::from_str_radix(&status_code, 16) {")]),
    ("sl-response-swap", "bad", "P05", [(HM, "        if let Err(err) = from.read_until(b' ', &mut status_code) {", "        if let Err(err) = from.read_until(b'\\n', &mut status_code) {")]),
    ("sl-same-words", "same", "P01 P02 P05", [(HM, """        let method = String::from_utf8_lossy(&method[..method.len() - 1]);
        let method = match HttpMethod::from_str(&method) {
            Err(err) => return Err(InvalidRequest(err)),
            Ok(method) => method,
        };
""", """        let end = method.len() - 1;
        let text = String::from_utf8_lossy(&method[0..end]).into_owned();
        let method: HttpMethod = text.parse().map_err(InvalidRequest)?;
""")]),
    ("sl-same-strip", "same", "P01 P02 P05", [(HM, """        if version[version.len() - 2] != (b'\\r') {
            return Err(InvalidRequest("invalid request line".to_string()));
        }
        let version = String::from_utf8_lossy(&version[..version.len() - 2]);
""", """        let version = match version.strip_suffix(b"\\r\\n") {
            Some(version) => String::from_utf8_lossy(version),
            None => return Err(InvalidRequest("invalid request line".to_string())),
        };
""")]),
    ("sl-same-ends", "same", "P01 P02 P05", [(HM, """        if version[version.len() - 2] != (b'\\r') {
            return Err(InvalidRequest("invalid request line".to_string()));
        }
""", """        if !version.ends_with(b"\\r\\n") {
            return Err(InvalidRequest("invalid request line".to_string()));
        }
""")]),
    ("sl-same-status", "same", "P01 P02 P05", [(HM, """        status_code = status_code.trim_end().to_string();
        let status_code = match status_code.parse::<usize>() {
            Err(error) => return Err(Unknown(error.to_string())),
            Ok(code) => code,
        };
        let status_code = StatusCode::from(status_code);
""", """        status_code = status_code.trim_end().to_string();
        let status_code = status_code
            .parse::<usize>()
            .map(StatusCode::from)
            .map_err(|error| Unknown(error.to_string()))?;
""")]),
    ("sl-same-construct", "same", "P01 P02 P05", [(HM, """        Ok(HttpRequestLine {
            method,
            uri: String::from(uri),
            version: String::from(version),
        })
""", """        let (uri, version) = (uri.into_owned(), version.to_string());
        let line = HttpRequestLine {
            version,
            uri,
            method,
        };
        Ok(line)
""")]),
]
