# P26: ready made messages; P36: kinds of failures
HM = "wruster/src/http/mod.rs"
ER = "wruster/src/http/errors.rs"
HH = "wruster/src/http/headers.rs"
FB = """        if let Some(content_type) = body.content_type.clone() {
            headers.add(Header {
                name: "Content-Type".to_string(),
                value: content_type.to_string(),
            });
        }
        if body.content_length != 0 {
            headers.add(Header {
                name: "Content-Length".to_string(),
                value: body.content_length.to_string(),
            });
        }
"""
FC = """        let mut headers = Headers::new();
        let reader = BufReader::new(content.take(length));
        let content = Box::new(reader);
        headers.add(Header {
            name: String::from("Content-Length"),
            value: length.to_string(),
        });
        headers.add(Header {
            name: String::from("Content-Type"),
            value: mime.to_string(),
        });

        let body = Body::new(Some(mime), length, content);
        Response {
            status: StatusCode::OK,
            headers,
            body: Some(body),
        }
"""
STR = """        Body::new(
            Some(mime_type),
            self.len() as u64,
            Box::new(Cursor::new(self)),
        )
"""
MUTANTS = [
    ("rm-chars", "bad", "P26", [(HM, STR, STR.replace("self.len()", "self.chars().count()"))]),
    ("rm-chars-resp", "bad", "P26", [(HM, "        let content = Vec::from(content);\n        let resp", "        let length = content.chars().count();\n        let content = Vec::from(content);\n        let resp"), (HM, "                content.len() as u64,\n                Box::new(Cursor::new(content)),\n            )),", "                length as u64,\n                Box::new(Cursor::new(content)),\n            )),")]),
    ("rm-trim", "bad", "P26", [(HM, "        let content = self.to_string();\n        IntoBody::into(content, mime_type)", "        let content = self.trim_end_matches('\\0').to_string();\n        IntoBody::into(content, mime_type)")]),
    ("rm-type", "bad", "P26", [(HM, "        let body = content.to_string();\n        Body::new(\n            Some(mime::TEXT_PLAIN)", "        let body = content.to_string();\n        Body::new(\n            Some(if body.starts_with('<') { mime::TEXT_HTML } else { mime::TEXT_PLAIN })")]),
    ("rm-fb-len", "bad", "P26", [(HM, "        if body.content_length != 0 {\n            headers.add", "        if body.content_length > 1 {\n            headers.add")]),
    ("rm-fb-len-only-typed", "bad", "P26", [(HM, FB, FB.replace("        if body.content_length != 0 {", "        if body.content_type.is_some() && body.content_length != 0 {"))]),
    ("rm-fb-method", "bad", "P26", [(HM, "            headers,\n            method,\n            uri: path.to_string(),", "            headers,\n            method: if body_len == 0 { HttpMethod::GET } else { method },\n            uri: path.to_string(),"), (HM, FB, FB + "        let body_len = body.content_length;\n")]),
    ("rm-fb-path", "bad", "P26", [(HM, "            uri: path.to_string(),", "            uri: path.trim().to_string(),")]),
    ("rm-fb-version", "bad", "P26", [(HM, "            uri: path.to_string(),\n            version: Version::HTTP1_1.to_string(),", "            uri: path.to_string(),\n            version: Version::HTTP1_0.to_string(),")]),
    ("rm-fc-len", "bad", "P26", [(HM, FC, FC.replace("content.take(length)", "content.take(length.saturating_sub(1))"))]),
    ("rm-fc-type-hdr", "bad", "P26", [(HM, FC, FC.replace("mime.to_string()", "mime.essence_str().to_string()"))]),
    ("rm-fc-nolen", "bad", "P26", [(HM, FC, FC.replace("Some(mime), length, content", "Some(mime), 0, content"))]),
    ("rm-fc-status", "bad", "P26", [(HM, FC, FC.replace("status: StatusCode::OK", "status: if length == 0 { StatusCode::NoContent } else { StatusCode::OK }"))]),
    ("rm-fs-close", "bad", "P26", [(HM, "        let headers = Headers::new();\n        Response {\n            status,", "        let mut headers = Headers::new();\n        if status == StatusCode::BadRequest {\n            headers.add(Header { name: String::from(\"Connection\"), value: String::from(\"close\") });\n        }\n        Response {\n            status,")]),
    ("rm-fs-body", "bad", "P26", [(HM, "            headers,\n            body: None,", "            headers,\n            body: Some(Body::from(\"\", mime::TEXT_PLAIN)),")]),
    ("rm-into-url", "bad", "P26", [(HM, "            uri: url,", "            uri: if url.is_empty() { String::from(\"/\") } else { url },")]),
    ("rm-new-read", "bad", "P26", [(HM, "        let bytes_read = 0;", "        let bytes_read = if content_type.is_none() { content_length } else { 0 };")]),
    ("rm-new-len", "bad", "P26", [(HM, "        let bytes_read = 0;", "        let bytes_read = 0;\n        let content_length = content_length & 0xffff_ffff;")]),
    ("rm-same-fc", "same", "P26", [(HM, FC, """        let length_header = Header {
            name: String::from("Content-Length"),
            value: format!("{}", length),
        };
        let mut response = Response::from_status(StatusCode::OK);
        response.headers.add(length_header);
        response.headers.add(Header {
            name: String::from("Content-Type"),
            value: mime.to_string(),
        });
        let reader: Box<dyn Read> = Box::new(BufReader::new(content.take(length)));
        response.body = Some(Body::new(Some(mime), length, reader));
        response
""")]),
    ("rm-same-fb", "same", "P26", [(HM, FB, """        let mut announce = |name: &str, value: String| {
            headers.add(Header {
                name: name.to_string(),
                value,
            })
        };
        if let Some(content_type) = &body.content_type {
            announce("Content-Type", content_type.to_string());
        }
        match body.content_length {
            0 => (),
            length => announce("Content-Length", length.to_string()),
        }
""")]),
    ("rm-same-always", "same", "P26", [(HM, "        if body.content_length != 0 {\n            headers.add(Header {\n                name: \"Content-Length\".to_string(),\n                value: body.content_length.to_string(),\n            });\n        }\n", "        headers.add(Header {\n            name: \"Content-Length\".to_string(),\n            value: body.content_length.to_string(),\n        });\n")]),
    ("rm-same-from", "same", "P26", [(HM, "        let body = content.to_string();\n        Body::new(\n            Some(mime::TEXT_PLAIN),\n            body.len() as u64,\n            Box::new(Cursor::new(body)),\n        )", "        IntoBody::into(content, mime::TEXT_PLAIN)")]),
    ("rm-same-bytes", "same", "P26", [(HM, STR, """        let bytes = self.into_bytes();
        let length = bytes.len() as u64;
        let content = Box::new(Cursor::new(bytes));
        Body {
            content_type: Some(mime_type),
            content_length: length,
            content,
            bytes_read: 0,
        }
""")]),
    ("rm-same-str", "same", "P26", [(HM, "        let content = Vec::from(content);\n        let resp = Response {\n            status: StatusCode::OK,\n            headers: Headers::new(),\n            body: Some(Body::new(\n                Some(mime::TEXT_PLAIN),\n                content.len() as u64,\n                Box::new(Cursor::new(content)),\n            )),\n        };\n        Ok(resp)", "        let mut resp = Response::from_status(StatusCode::OK);\n        resp.body = Some(<Body as From<&str>>::from(content));\n        Ok(resp)")]),
    ("ek-map", "bad", "P36", [(ER, "            io::ErrorKind::TimedOut => HttpError::Timeout,\n", "")]),
    ("ek-swap", "bad", "P36", [(ER, "            io::ErrorKind::NotConnected => HttpError::ConnectionClosed,\n            io::ErrorKind::TimedOut => HttpError::Timeout,", "            io::ErrorKind::NotConnected => HttpError::Timeout,\n            io::ErrorKind::TimedOut => HttpError::ConnectionClosed,")]),
    ("ek-wide", "bad", "P36", [(ER, "            io::ErrorKind::TimedOut => HttpError::Timeout,", "            io::ErrorKind::TimedOut | io::ErrorKind::Interrupted => HttpError::Timeout,")]),
    ("ek-reset", "bad", "P36", [(ER, "            io::ErrorKind::NotConnected => HttpError", "            io::ErrorKind::NotConnected | io::ErrorKind::ConnectionReset => HttpError")]),
    ("ek-invalid", "bad", "P36", [(ER, "            _ => HttpError::Unknown(err.to_string()),", "            io::ErrorKind::InvalidData => HttpError::InvalidRequest(err.to_string()),\n            _ => HttpError::Unknown(err.to_string()),")]),
    ("ek-header", "bad", "P36", [(HH, "                .read_until(b'\\n', &mut header_chunk)\n                .map_err(HttpError::from)?;", "                .read_until(b'\\n', &mut header_chunk)\n                .map_err(|err| InvalidRequest(err.to_string()))?;")]),
    ("ek-version", "bad", "P36", [(HM, "        from.read_until(b'\\n', &mut version)\n            .map_err(HttpError::from)?;", "        from.read_until(b'\\n', &mut version)\n            .map_err(|err| Unknown(err.to_string()))?;")]),
    ("ek-eof-timeout", "bad", "P36", [(HH, "                return Err(HttpError::ConnectionClosed);", "                return Err(HttpError::Timeout);")]),
    ("ek-method", "bad", "P36", [(HM, "        from.read_until(b' ', &mut method)\n            .map_err(HttpError::from)?;", "        from.read_until(b' ', &mut method)\n            .map_err(|_| ConnectionClosed)?;")]),
    ("ek-ensure", "bad", "P36", [(HM, "            Ok(_) => Ok(()),\n            Err(err) => Err(HttpError::from(err)),", "            Ok(_) => Ok(()),\n            Err(err) => Err(Unknown(err.to_string())),")]),
    ("ek-same-if", "same", "P36", [(ER, """        match err.kind() {
            io::ErrorKind::NotConnected => HttpError::ConnectionClosed,
            io::ErrorKind::TimedOut => HttpError::Timeout,
            _ => HttpError::Unknown(err.to_string()),
        }
""", """        let kind = err.kind();
        if kind == io::ErrorKind::TimedOut {
            return HttpError::Timeout;
        }
        if kind == io::ErrorKind::NotConnected {
            HttpError::ConnectionClosed
        } else {
            HttpError::Unknown(err.to_string())
        }
""")]),
    ("ek-same-q", "same", "P36", [(HM, "        from.read_until(b' ', &mut method)\n            .map_err(HttpError::from)?;", "        if let Err(err) = from.read_until(b' ', &mut method) {\n            return Err(err.into());\n        }")]),
    ("ek-same-q2", "same", "P36", [(HM, "        from.read_until(b'\\n', &mut version)\n            .map_err(HttpError::from)?;", "        from.read_until(b'\\n', &mut version)?;")]),
    ("ek-same-match", "same", "P36", [(HM, "        from.read_until(b'\\n', &mut version)\n            .map_err(HttpError::from)?;", "        match from.read_until(b'\\n', &mut version) {\n            Ok(_) => (),\n            Err(err) if err.kind() == io::ErrorKind::TimedOut => return Err(HttpError::Timeout),\n            Err(err) if err.kind() == io::ErrorKind::NotConnected => return Err(ConnectionClosed),\n            Err(err) => return Err(Unknown(err.to_string())),\n        }")]),
    ("ek-uri", "bad", "P36", [(HM, "        if let Err(err) = from.read_until(b' ', &mut uri) {\n            return Err(HttpError::from(err));", "        if let Err(err) = from.read_until(b' ', &mut uri) {\n            return Err(Unknown(err.to_string()));")]),
    ("ek-write-hdr", "bad", "P36", [(HH, "        written = to.write_all(self.value.as_bytes());\n        if let Err(err) = written {\n            return Err(HttpError::from(err));", "        written = to.write_all(self.value.as_bytes());\n        if let Err(err) = written {\n            return Err(HttpError::Unknown(err.to_string()));")]),
    ("ek-write-body", "bad", "P36", [(HM, "            Err(err) => Err(HttpError::from(err)),\n            Ok(copied)", "            Err(_) => Err(HttpError::ConnectionClosed),\n            Ok(copied)")]),
]
