"""Self test entries: messages (src/http/mod.rs, status.rs, version.rs), rewritten in other styles."""
H = "wruster/src/http/mod.rs"
ST = "wruster/src/http/status.rs"
MSG = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P20 P21 P22 P24 P25 P26 P27 P31 P32 P33 P34 P35 P36"
ENS = """        let n = self.content_length - self.bytes_read;
        match io::copy(&mut self.content.by_ref().take(n), &mut io::sink()) {
            Ok(_) => Ok(()),
            Err(err) => Err(HttpError::from(err)),
        }
"""
WRITE_RES = """        match res {
            Err(err) => Err(HttpError::from(err)),
            Ok(copied) if copied < self.content_length => Err(HttpError::Unknown(
                "the content of the body is shorter than its length".to_string(),
            )),
            Ok(_) => Ok(()),
        }
"""
COPY = """        let res = match self.content_length {
            x if x > u64::pow(2, 20) * 2 => {
                let buff_size = usize::pow(2, 20);
                let mut dest = BufWriter::with_capacity(buff_size, to);
                io::copy(src, &mut dest).and_then(|copied| dest.flush().map(|_| copied))
            }
            _ => io::copy(src, to),
        };
"""
WHOLE = """        // Never write more bytes than the announced length.
        let src = &mut self.content.by_ref().take(self.content_length);
"""
ENC = """        if let Some(encoding) = headers.get("Transfer-Encoding") {
            // Transfer-Encoding entity is not supported.
            if encoding.len() != 1 {
                let msg = "invalid Transfer-Encoding header".to_string();
                return Err(Unknown(msg));
            }
            if encoding[0] != "identity" {
                let msg = format!("Transfer-Encoding: {} is not supported", encoding[0]);
                return Err(Unknown(msg));
            }
        };
"""
LEN1 = """        let len = match headers.get("Content-Length") {
            None => return Ok(None),
            Some(lengths) => {
                if lengths.len() != 1 {
                    let msg = String::from("invalid Content-Length header");
                    return Err(Unknown(msg));
                }
                &lengths[0]
            }
        };

"""
LEN2 = """        let len = match usize::from_str(len) {
            Err(err) => {
                let msg = format!("invalid Content-Length header, {}", err);
                return Err(Unknown(msg));
            }
            Ok(size) => size,
        };
"""
CTYPE = """        let content_type = match headers.get("Content-Type") {
            None => None,
            Some(types) => {
                if types.is_empty() {
                    let msg = format!("invalid Content-Type header, {:?}", types);
                    return Err(Unknown(msg));
                };
                let mtype: mime::Mime = match types[0].parse() {
                    Ok(t) => t,
                    Err(err) => {
                        let msg = format!("invalid Content-Type header, {:?}, {}", types, err);
                        return Err(Unknown(msg));
                    }
                };
                Some(mtype)
            }
        };
"""
RQ_METHOD = """        let mut method = Vec::new();
        from.read_until(b' ', &mut method)
            .map_err(HttpError::from)?;
        if method.is_empty() {
            return Err(ConnectionClosed);
        }
        if method.len() < 2 {
            let msg = format!("invalid request line {:?}", method);
            return Err(InvalidRequest(msg));
        };
        let method = String::from_utf8_lossy(&method[..method.len() - 1]);
        let method = match HttpMethod::from_str(&method) {
            Err(err) => return Err(InvalidRequest(err)),
            Ok(method) => method,
        };
"""
RQ_URI = """        let mut uri = Vec::new();
        if let Err(err) = from.read_until(b' ', &mut uri) {
            return Err(HttpError::from(err));
        };
        if uri.len() < 2 {
            return Err(InvalidRequest("invalid request line".to_string()));
        };

        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);
"""
RQ_VER = """        if version.len() < 3 {
            return Err(InvalidRequest("invalid request line".to_string()));
        };

        if version[version.len() - 2] != (b'\\r') {
            return Err(InvalidRequest("invalid request line".to_string()));
        }
        let version = String::from_utf8_lossy(&version[..version.len() - 2]);
"""
RS_VER = """        if http_version.is_empty() {
            return Err(ConnectionClosed);
        }

        let mut http_version = String::from_utf8_lossy(&http_version).to_string();
        http_version = http_version.trim_end().to_string();
        Self::validate_version(&http_version)?;
"""
RS_CODE = """        let mut status_code = String::from_utf8_lossy(&status_code).to_string();
        if status_code.len() != 4 {
            return Err(Unknown(format!("invalid status code: {}", status_code)));
        };
        status_code = status_code.trim_end().to_string();
        let status_code = match status_code.parse::<usize>() {
            Err(error) => return Err(Unknown(error.to_string())),
            Ok(code) => code,
        };
"""
RS_REASON = """        if reason_phrase.len() < 3 {
            return Err(Unknown(String::from("invalid reason phrase")));
        };
        let reason_phrase =
            String::from_utf8_lossy(&reason_phrase[..reason_phrase.len() - 2]).to_string();
"""
VALID_A = """        let parts: Vec<&str> = version.split('/').collect();
        if parts.len() != 2 {
            return Err(Unknown(format!("invalid http version: {}", version)));
        };
        if parts[0] != "HTTP" {
            return Err(Unknown(format!("invalid http version: {}", version)));
        };

        let digits_parts: Vec<&str> = parts[1].split('.').collect();
        if digits_parts.len() != 2 {
            return Err(Unknown(format!("invalid http version: {}", version)));
        }
"""
VALID_B = """
        if let Err(error) = digits_parts[0].parse::<u8>() {
            return Err(Unknown(format!(
                "invalid http version: {} {}",
                version, error
            )));
        }

        if let Err(error) = digits_parts[1].parse::<u8>() {
            return Err(Unknown(format!(
                "invalid http version: {} {}",
                version, error
            )));
        }
        Ok(())
"""
RLINE_W = """        let payload = format!("{} {}\\r\\n", self.http_version, self.status_code);
        if let Err(err) = to.write_all(payload.as_bytes()) {
            return Err(HttpError::from(err));
        };
        Ok(())
"""
QLINE_W = """        let line = format!("{:#} {} {}\\r\\n", self.method, self.uri, self.version);
        to.write_all(line.as_bytes()).map_err(HttpError::from)?;
        Ok(())
"""
DISP_A = """        match self {
            HttpMethod::CONNECT => write!(f, "CONNECT"),
            HttpMethod::DELETE => write!(f, "DELETE"),
            HttpMethod::GET => write!(f, "GET"),
            HttpMethod::HEAD => write!(f, "HEAD"),
            HttpMethod::OPTIONS => write!(f, "OPTIONS"),
            HttpMethod::PATCH => write!(f, "PATCH"),
            HttpMethod::POST => write!(f, "POST"),
            HttpMethod::PUT => write!(f, "PUT"),
            HttpMethod::TRACE => write!(f, "TRACE"),
        }
"""
NAME_ARMS = """            HttpMethod::CONNECT => "CONNECT",
            HttpMethod::DELETE => "DELETE",
            HttpMethod::GET => "GET",
            HttpMethod::HEAD => "HEAD",
            HttpMethod::OPTIONS => "OPTIONS",
            HttpMethod::PATCH => "PATCH",
            HttpMethod::POST => "POST",
            HttpMethod::PUT => "PUT",
            HttpMethod::TRACE => "TRACE",
"""
TOKEN = """        if !self.is_ascii() {
            return false;
        }
        if self.is_alphanumeric() {
            return true;
        };
        let valid_token_symbols = [
            '!', '#', '$', '%', '&', '\\'', '*', '+', '-', '.', '^', '_', '`', '|', '~',
        ];
        if valid_token_symbols.contains(self) {
            return true;
        };
        false
"""
VCHAR = """        if self.is_ascii_graphic() {
            return true;
        };
        if *self as u8 >= 0x80 {
            return true;
        };
        false
"""
QW = """        if self.body.is_none() && self.headers.get("Content-Length").is_none() {
            self.headers.add(Header {
                name: String::from("Content-Length"),
                value: String::from("0"),
            })
        }
        self.headers.write(to)?;
        match self.body {
            Some(mut body) => body.write(to).map_err(HttpError::from),
            None => Ok(()),
        }
"""
SW = """        if self.headers.get("Content-Length").is_none() {
            let length = self.body.as_ref().map_or(0, |body| body.content_length);
            self.headers.add(Header {
                name: String::from("Content-Length"),
                value: length.to_string(),
            })
        }
        self.headers.write(to)?;
        match self.body.as_mut() {
            Some(body) => body.write(to).map_err(HttpError::from),
            None => Ok(()),
        }
"""
REQ = """        let request_line = match HttpRequestLine::read_from(&mut reader) {
            Ok(request) => request,
            Err(err) => return Err(err),
        };
"""
RPERS = """        let value = match self.headers.get("Connection") {
            None => "".to_string(),
            Some(values) => values[0].to_lowercase(),
        };
        if value == "close" {
            return false;
        }

        if self.version == "HTTP/1.1" || self.version == "HTTP/2" {
            return true;
        };

        if self.version == "HTTP/1.0" && value == "keep-alive" {
            return true;
        };
        false
"""
READ = """        match self.content.read(buf) {
            Ok(bytes_read) => {
                self.bytes_read += bytes_read as u64;
                Ok(bytes_read)
            }
            Err(err) => Err(err),
        }
"""

MUTANTS = [
    ("ms-same-ens-q", "same", MSG, [(H, ENS, """        let n = self.content_length - self.bytes_read;
        io::copy(&mut self.content.by_ref().take(n), &mut io::sink())?;
        Ok(())
""")]),
    ("ms-same-ens-if", "same", MSG, [(H, "        if self.bytes_read >= self.content_length {\n            return Ok(());\n        }\n" + ENS, """        if self.bytes_read < self.content_length {
            let unread = self.content_length - self.bytes_read;
            let mut rest = Read::take(&mut self.content, unread);
            io::copy(&mut rest, &mut io::sink()).map_err(HttpError::from)?;
        }
        Ok(())
""")]),
    ("ms-same-wres-if", "same", MSG, [(H, WRITE_RES, """        let copied = res.map_err(HttpError::from)?;
        if copied >= self.content_length {
            return Ok(());
        }
        Err(HttpError::Unknown(
            "the content of the body is shorter than its length".to_string(),
        ))
""")]),
    ("ms-same-wres-eq", "same", MSG, [(H, WRITE_RES, """        let copied = res?;
        if copied != self.content_length {
            return Err(Unknown(format!("only {} bytes of the body", copied)));
        }
        Ok(())
""")]),
    ("ms-same-copy-fn", "same", MSG, [(H, COPY, "        let res = copy(src, to, self.content_length);\n"), (H, "impl Read for Body {", """fn copy<R: Read, W: io::Write>(src: &mut R, to: &mut W, length: u64) -> io::Result<u64> {
    const LARGE: u64 = 2 << 20;
    if length <= LARGE {
        return io::copy(src, to);
    }
    let mut dest = BufWriter::with_capacity(1 << 20, to);
    let copied = io::copy(src, &mut dest)?;
    dest.flush()?;
    Ok(copied)
}

impl Read for Body {""")]),
    ("ms-same-enc-match", "same", MSG, [(H, ENC, """        match headers.get("Transfer-Encoding") {
            None => {}
            Some(encoding) if encoding.len() == 1 && encoding[0] == "identity" => {}
            Some(encoding) => {
                return Err(Unknown(format!("Transfer-Encoding: {:?} is not supported", encoding)))
            }
        }
""")]),
    ("ms-same-enc-any", "same", MSG, [(H, ENC, """        let supported = headers
            .get("Transfer-Encoding")
            .map(|encoding| encoding.len() == 1 && encoding.iter().all(|e| e == "identity"))
            .unwrap_or(true);
        if !supported {
            return Err(Unknown("Transfer-Encoding is not supported".to_string()));
        }
""")]),
    ("ms-same-len-parse", "same", MSG, [(H, LEN1 + LEN2, """        let lengths = match headers.get("Content-Length") {
            None => return Ok(None),
            Some(lengths) => lengths,
        };
        if lengths.len() != 1 {
            return Err(Unknown("invalid Content-Length header".to_string()));
        }
        let len: usize = lengths[0]
            .parse()
            .map_err(|err| Unknown(format!("invalid Content-Length header, {}", err)))?;
""")]),
    ("ms-same-len-u64", "same", MSG, [(H, LEN2, """        let len = match len.parse::<u64>() {
            Ok(size) => size,
            Err(err) => return Err(Unknown(format!("invalid Content-Length header, {}", err))),
        };
"""), (H, "from.take(len as u64)", "from.take(len)"), (H, "            content_length: len as u64,\n            bytes_read: 0,", "            content_length: len,\n            bytes_read: 0,")]),
    ("ms-same-ctype-fn", "same", MSG, [(H, CTYPE, "        let content_type = content_type(headers)?;\n"), (H, "impl Read for Body {", """fn content_type(headers: &Headers) -> HttpResult<Option<mime::Mime>> {
    let invalid = |what: &dyn Debug| Unknown(format!("invalid Content-Type header, {:?}", what));
    headers
        .get("Content-Type")
        .map(|types| {
            let first = types.first().ok_or_else(|| invalid(types))?;
            first.parse::<mime::Mime>().map_err(|err| invalid(&err))
        })
        .transpose()
}

impl Read for Body {""")]),
    ("ms-same-body-new", "same", MSG, [(H, """        let c = from.take(len as u64);
        let content = Box::new(c);
        let body = Body {
            content,
            content_type,
            content_length: len as u64,
            bytes_read: 0,
        };
        Ok(Some(body))
""", """        let length = len as u64;
        Ok(Some(Body::new(content_type, length, Box::new(from.take(length)))))
""")]),
    ("ms-same-word-fn", "same", MSG, [(H, RQ_URI, """        let uri = match Self::word(from)? {
            Some(uri) => uri,
            None => return Err(InvalidRequest("invalid request line".to_string())),
        };
"""), (H, """    pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
        // Request-Line""", """    fn word<T: io::Read>(from: &mut io::BufReader<T>) -> HttpResult<Option<String>> {
        let mut word = Vec::new();
        let n = from.read_until(b' ', &mut word)?;
        if n < 2 {
            return Ok(None);
        }
        Ok(Some(String::from_utf8_lossy(&word[..n - 1]).into_owned()))
    }

    pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
        // Request-Line""")]),
    ("ms-same-method-match", "same", MSG, [(H, RQ_METHOD, """        let mut method = Vec::new();
        let n = from.read_until(b' ', &mut method)?;
        let method = match n {
            0 => return Err(ConnectionClosed),
            1 => return Err(InvalidRequest(format!("invalid request line {:?}", method))),
            n => String::from_utf8_lossy(&method[..n - 1])
                .parse::<HttpMethod>()
                .map_err(InvalidRequest)?,
        };
""")]),
    ("ms-same-ver-last", "same", MSG, [(H, RQ_VER, """        let len = version.len();
        if len < 3 || version[len - 2] != b'\\r' {
            return Err(InvalidRequest("invalid request line".to_string()));
        }
        version.truncate(len - 2);
        let version = String::from_utf8_lossy(&version).into_owned();
""")]),
    ("ms-same-ver-pat", "same", MSG, [(H, RQ_VER, """        let version = match version.as_slice() {
            [text @ .., b'\\r', _] if !text.is_empty() => String::from_utf8_lossy(text),
            _ => return Err(InvalidRequest("invalid request line".to_string())),
        };
""")]),
    ("ms-same-rver", "same", MSG, [(H, RS_VER, """        if http_version.is_empty() {
            return Err(ConnectionClosed);
        }
        let http_version = String::from_utf8_lossy(&http_version);
        let http_version = http_version.trim_end().to_owned();
        Self::validate_version(http_version.as_str())?;
""")]),
    ("ms-same-code", "same", MSG, [(H, RS_CODE, """        let status_code = String::from_utf8_lossy(&status_code).into_owned();
        if status_code.len() != 4 {
            return Err(Unknown(format!("invalid status code: {}", status_code)));
        };
        let status_code: usize = status_code
            .trim_end()
            .parse()
            .map_err(|err: std::num::ParseIntError| Unknown(err.to_string()))?;
""")]),
    ("ms-same-reason", "same", MSG, [(H, RS_REASON, """        let end = reason_phrase.len();
        if end < 3 {
            return Err(Unknown(String::from("invalid reason phrase")));
        };
        let reason_phrase = String::from_utf8_lossy(&reason_phrase[0..end - 2]).into_owned();
""")]),
    ("ms-same-valid", "same", MSG, [(H, VALID_A + VALID_B, """        let invalid = || Unknown(format!("invalid http version: {}", version));
        let (name, digits) = version.split_once('/').ok_or_else(invalid)?;
        if name != "HTTP" {
            return Err(invalid());
        }
        let (major, minor) = digits.split_once('.').ok_or_else(invalid)?;
        for digits in [major, minor] {
            if digits.parse::<u8>().is_err() {
                return Err(invalid());
            }
        }
        Ok(())
""")]),
    ("ms-same-valid-strip", "same", MSG, [(H, VALID_A, """        let digits = match version.strip_prefix("HTTP/") {
            Some(digits) => digits,
            None => return Err(Unknown(format!("invalid http version: {}", version))),
        };
        let digits_parts: Vec<&str> = digits.split('.').collect();
        if digits_parts.len() != 2 {
            return Err(Unknown(format!("invalid http version: {}", version)));
        }
""")]),
    ("ms-same-valid-loop", "same", MSG, [(H, VALID_B, """        for digits in &digits_parts {
            digits
                .parse::<u8>()
                .map_err(|error| Unknown(format!("invalid http version: {} {}", version, error)))?;
        }
        Ok(())
""")]),
    ("ms-same-rline-w", "same", MSG, [(H, RLINE_W, """        write!(to, "{} {}\\r\\n", self.http_version, self.status_code).map_err(HttpError::from)
""")]),
    ("ms-same-qline-w", "same", MSG, [(H, QLINE_W, """        let mut line = self.method.to_string();
        line.push(' ');
        line.push_str(&self.uri);
        line.push(' ');
        line.push_str(&self.version);
        line.push_str("\\r\\n");
        to.write_all(line.as_bytes())?;
        Ok(())
""")]),
    ("ms-same-qline-w2", "same", MSG, [(H, QLINE_W, """        let method = self.method.to_string();
        let line = [method.as_str(), self.uri.as_str(), self.version.as_str()].join(" ") + "\\r\\n";
        to.write_all(line.as_bytes()).map_err(HttpError::from)
""")]),
    ("ms-same-disp", "same", MSG, [(H, DISP_A, "        f.write_str(match self {\n" + NAME_ARMS + "        })\n")]),
    ("ms-same-disp-name", "same", MSG, [(H, DISP_A, "        f.write_str(self.name())\n"), (H, "impl PartialEq for HttpMethod {\n    fn eq(&self, other: &Self) -> bool {\n        self.to_string() == other.to_string()\n",
        "impl HttpMethod {\n    fn name(&self) -> &'static str {\n        match self {\n" + NAME_ARMS + "        }\n    }\n}\n\nimpl PartialEq for HttpMethod {\n    fn eq(&self, other: &Self) -> bool {\n        self.name() == other.name()\n")]),
    ("ms-same-eq-derive", "same", MSG, [(H, "impl PartialEq for HttpMethod {\n    fn eq(&self, other: &Self) -> bool {\n        self.to_string() == other.to_string()\n    }\n}\n\nimpl Eq for HttpMethod {}\n", ""),
        (H, "#[derive(Debug, Copy, Clone)]\n#[repr(u16)]", "#[derive(Debug, Copy, Clone, PartialEq, Eq)]\n#[repr(u16)]")]),
    ("ms-same-eq-num", "same", MSG, [(H, "self.to_string() == other.to_string()", "*self as u16 == *other as u16")]),
    ("ms-same-token", "same", MSG, [(H, TOKEN, """        self.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(*self)
""")]),
    ("ms-same-token-match", "same", MSG, [(H, TOKEN, """        match self {
            'a'..='z' | 'A'..='Z' | '0'..='9' => true,
            '!' | '#' | '$' | '%' | '&' | '\\'' | '*' | '+' | '-' | '.' | '^' | '_' | '`' | '|'
            | '~' => true,
            _ => false,
        }
""")]),
    ("ms-same-vchar", "same", MSG, [(H, VCHAR, "        self.is_ascii_graphic() || (*self as u8) >= 0x80\n")]),
    ("ms-same-vchar-match", "same", MSG, [(H, VCHAR, "        matches!(*self as u8, 0x21..=0x7e | 0x80..=0xff) && (*self as u32 > 0x7f || self.is_ascii_graphic())\n".replace(" && (*self as u32 > 0x7f || self.is_ascii_graphic())", ""))]),
    ("ms-same-ows", "same", MSG, [(H, "        *self == ' ' || *self == '\\t'\n", "        matches!(self, ' ' | '\\t')\n")]),
    ("ms-same-fc", "same", MSG, [(H, "        self.is_valid_vchar() || self.is_optional_white_space()\n", "        if self.is_optional_white_space() {\n            return true;\n        }\n        self.is_valid_vchar()\n")]),
    ("ms-same-qw", "same", MSG, [(H, QW, """        match self.body {
            Some(mut body) => {
                self.headers.write(to)?;
                body.write(to)
            }
            None => {
                if self.headers.get("Content-Length").is_none() {
                    let (name, value) = ("Content-Length".to_string(), "0".to_string());
                    self.headers.add(Header { name, value });
                }
                self.headers.write(to)
            }
        }
""")]),
    ("ms-same-sw", "same", MSG, [(H, SW, """        let length = match &self.body {
            Some(body) => body.content_length,
            None => 0,
        };
        if self.headers.get("Content-Length").is_none() {
            self.headers.add(Header {
                name: "Content-Length".to_string(),
                value: format!("{}", length),
            });
        }
        self.headers.write(to)?;
        if let Some(body) = &mut self.body {
            body.write(to)?;
        }
        Ok(())
""")]),
    ("ms-same-sw-fn", "same", MSG, [(H, SW, """        self.announce();
        self.headers.write(to)?;
        self.body.as_mut().map_or(Ok(()), |body| body.write(to))
    }

    fn announce(&mut self) {
        if self.headers.get("Content-Length").is_some() {
            return;
        }
        let length = self.body.as_ref().map(|body| body.content_length).unwrap_or_default();
        let value = length.to_string();
        self.headers.add(Header {
            name: String::from("Content-Length"),
            value,
        });
""")]),
    ("ms-same-req-q", "same", MSG, [(H, REQ, "        let request_line = HttpRequestLine::read_from(&mut reader)?;\n")]),
    ("ms-same-req-bufread", "same", MSG, [(H, "        let mut reader = io::BufReader::new(from);\n        let request_line", "        let mut reader = BufReader::with_capacity(8 * 1024, from);\n        let request_line")]),
    ("ms-same-read-map", "same", MSG, [(H, READ, """        self.content.read(buf).map(|n| {
            self.bytes_read += n as u64;
            n
        })
""")]),
    ("ms-same-rpers", "same", MSG, [(H, RPERS, """        let value = self.headers.get("Connection").map(|values| values[0].to_lowercase());
        match self.version.as_str() {
            "HTTP/1.1" | "HTTP/2" => value.as_deref() != Some("close"),
            "HTTP/1.0" => value.as_deref() == Some("keep-alive"),
            _ => false,
        }
""")]),

    ("ms-ens-bound", "bad", "P03", [(H, ENS, ENS.replace("let n = self.content_length - self.bytes_read;", "let n = (self.content_length - self.bytes_read).min(1 << 20);"))]),
    ("ms-wloop-once", "bad", "P06", [(H, WHOLE, ""), (H, COPY, """        let mut buf = vec![0u8; self.content_length as usize];
        let res = self
            .content
            .read(&mut buf)
            .and_then(|n| to.write(&buf[..n]).map(|n| n as u64));
""")]),
    ("ms-large-noflush", "bad", "P06", [(H, "io::copy(src, &mut dest).and_then(|copied| dest.flush().map(|_| copied))", "io::copy(src, &mut dest)")]),
    ("ms-short-ok", "bad", "P07", [(H, "Ok(copied) if copied < self.content_length => Err(", "Ok(copied) if copied == 0 && self.content_length > 0 => Err(")]),
    ("ms-len-u32", "bad", "P02 P03 P08 P24 P20", [(H, LEN2, LEN2.replace("usize::from_str(len)", "u32::from_str(len)")), (H, "        let c = from.take(len as u64);", "        let c = from.take(len as u16 as u64);")]),
    ("ms-len-last", "bad", "P02 P03 P20", [(H, LEN1, """        let len = match headers.get("Content-Length").and_then(|lengths| lengths.last()) {
            None => return Ok(None),
            Some(len) => len,
        };

""")]),
    ("ms-enc-first", "bad", "P02 P03 P20", [(H, """            if encoding.len() != 1 {
                let msg = "invalid Transfer-Encoding header".to_string();
                return Err(Unknown(msg));
            }
            if encoding[0]""", """            if encoding[0]""")]),
    ("ms-code-five", "bad", "P03 P05 P21", [(H, "        if status_code.len() != 4 {", "        if status_code.len() > 4 {")]),
    ("ms-disp-swap", "bad", "P08", [(H, "HttpMethod::PATCH => write!(f, \"PATCH\")", "HttpMethod::PATCH => write!(f, \"POST\")"), ]),
    ("ms-sw-stale", "bad", "P05 P07 P26 P06", [(H, SW, SW.replace("map_or(0, |body| body.content_length)", "map_or(0, |body| body.content_length - body.bytes_read)"))]),
    ("ms-qw-late", "bad", "P05 P07", [(H, QW, QW.replace("        self.headers.write(to)?;\n", "").replace("            Some(mut body) => body.write(to).map_err(HttpError::from),", "            Some(mut body) => {\n                self.headers.write(to)?;\n                body.write(to)\n            }"))]),
    ("ms-sw-twice", "bad", "P05 P07", [(H, "        self.headers.write(to)?;\n        match self.body.as_mut() {", "        if self.headers.write(to).is_err() {\n            self.headers.write(to)?;\n        }\n        match self.body.as_mut() {")]),
    ("ms-read-count", "bad", "P03", [(H, READ, READ.replace("self.bytes_read += bytes_read as u64;", "self.bytes_read += buf.len() as u64;"))]),
    ("ms-vchar-del", "bad", "P04", [(H, "if *self as u8 >= 0x80 {", "if *self as u8 >= 0x7f {")]),
    ("ms-fc-any", "bad", "P04", [(H, "        self.is_valid_vchar() || self.is_optional_white_space()\n", "        self.is_valid_vchar() || self.is_whitespace()\n")]),
]
