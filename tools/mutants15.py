"""Self test entries: statuses, methods and versions."""
import re
ST = "wruster/src/http/status.rs"
VE = "wruster/src/http/version.rs"
H = "wruster/src/http/mod.rs"
SV = "P08 P05 P07 P21 P26"
DISP = """        let code: usize = self.into();
        // Status-Code SP Reason-Phrase https://www.w3.org/Protocols/rfc2616/rfc2616-sec6.html
        write!(f, "{} {}", code, self.reason())
"""
V_DISP = """        match self {
            Version::HTTP1_0 => write!(f, "HTTP/1.0"),
            Version::HTTP1_1 => write!(f, "HTTP/1.1"),
            Version::HTTP2 => write!(f, "HTTP/2"),
        }
"""
V_FROM = """        match s {
            "HTTP/1.0" => Ok(Version::HTTP1_0),
            "HTTP/1.1" => Ok(Version::HTTP1_1),
            "HTTP/2" => Ok(Version::HTTP2),
            _ => Err(ParseVersionError::new(s)),
        }
"""
M_FROM_A = """        match s {
            "GET" => Ok(HttpMethod::GET),
            "HEAD" => Ok(HttpMethod::HEAD),
            "POST" => Ok(HttpMethod::POST),
            "PUT" => Ok(HttpMethod::PUT),
            "DELETE" => Ok(HttpMethod::DELETE),
            "CONNECT" => Ok(HttpMethod::CONNECT),
            "OPTIONS" => Ok(HttpMethod::OPTIONS),
            "TRACE" => Ok(HttpMethod::TRACE),
            "PATCH" => Ok(HttpMethod::PATCH),
            _ => Err(String::from("invalid http method")),
        }
"""
MS = "GET HEAD POST PUT DELETE CONNECT OPTIONS TRACE PATCH".split()
TO = "impl From<&StatusCode> for usize {\n    fn from(code: &StatusCode) -> Self {\n        match code {\n"

MUTANTS = [
    ("sv-same-disp", "same", SV, [(ST, DISP, "        f.write_fmt(format_args!(\"{} {}\", usize::from(self), self.reason()))\n")]),
    ("sv-same-disp-parts", "same", SV, [(ST, DISP, "        let code: usize = self.into();\n        write!(f, \"{}\", code)?;\n        f.write_str(\" \")?;\n        f.write_str(self.reason())\n")]),
    ("sv-same-to-fn", "same", SV, [(ST, TO, "impl From<&StatusCode> for usize {\n    fn from(code: &StatusCode) -> Self {\n        code.number()\n    }\n}\n\nimpl StatusCode {\n    fn number(&self) -> usize {\n        let code = self;\n        match code {\n")]),
    ("sv-same-to-deref", "same", SV, [(ST, TO, TO.replace("match code {", "match *code {")), (ST, "StatusCode::ExtensionCode(code) => code.to_owned(),", "StatusCode::ExtensionCode(number) => number,")]),
    ("sv-same-from-range", "same", SV, [(ST, "            417 => Self::ExpectationFailed,\n", "            417 => {\n                let code = Self::ExpectationFailed;\n                code\n            }\n")]),
    ("sv-same-string", "same", SV, [(ST, "        code.to_string()\n", "        format!(\"{}\", code)\n")]),
    ("sv-same-vdisp", "same", SV, [(VE, V_DISP, "        let text = match self {\n            Version::HTTP1_0 => \"HTTP/1.0\",\n            Version::HTTP1_1 => \"HTTP/1.1\",\n            Version::HTTP2 => \"HTTP/2\",\n        };\n        write!(f, \"{}\", text)\n")]),
    ("sv-same-vfrom-strip", "same", SV, [(VE, V_FROM, "        let digits = s.strip_prefix(\"HTTP/\").ok_or_else(|| ParseVersionError::new(s))?;\n        match digits {\n            \"1.0\" => Ok(Version::HTTP1_0),\n            \"1.1\" => Ok(Version::HTTP1_1),\n            \"2\" => Ok(Version::HTTP2),\n            _ => Err(ParseVersionError::new(s)),\n        }\n")]),
    ("sv-same-vfrom-if", "same", SV, [(VE, V_FROM, "        if s == \"HTTP/1.0\" {\n            return Ok(Version::HTTP1_0);\n        }\n        if s == \"HTTP/1.1\" {\n            return Ok(Version::HTTP1_1);\n        }\n        if s == \"HTTP/2\" {\n            return Ok(Version::HTTP2);\n        }\n        Err(ParseVersionError::new(s))\n")]),
    ("sv-same-mfrom-ok", "same", SV, [(H, M_FROM_A, "        let method = match s {\n" + "".join('            "%s" => HttpMethod::%s,\n' % (m, m) for m in MS) + "            _ => return Err(String::from(\"invalid http method\")),\n        };\n        Ok(method)\n")]),
    ("sv-same-mfrom-opt", "same", SV, [(H, M_FROM_A, "        let method = match s {\n" + "".join('            "%s" => Some(Self::%s),\n' % (m, m) for m in MS) + "            _ => None,\n        };\n        method.ok_or_else(|| \"invalid http method\".to_string())\n")]),

    ("sv-swap", "bad", "P08", [(ST, "            417 => Self::ExpectationFailed,", "            417 => Self::RequestedRangeNotSatisfiable,")]),
    ("sv-to-swap", "bad", "P08", [(ST, "StatusCode::GatewayTimeOut => 504", "StatusCode::GatewayTimeOut => 503")]),
    ("sv-ext", "bad", "P08", [(ST, "            code => Self::ExtensionCode(code),", "            code if code < 600 => Self::ExtensionCode(code),\n            _ => Self::InternalServerError,")]),
    ("sv-ext-class", "bad", "P08", [(ST, "            code => Self::ExtensionCode(code),", "            code @ 500..=599 => Self::ExtensionCode(code / 100 * 100),\n            code => Self::ExtensionCode(code),")]),
    ("sv-ext-to", "bad", "P08", [(ST, "StatusCode::ExtensionCode(code) => code.to_owned(),", "StatusCode::ExtensionCode(code) => (*code).min(999),")]),
    ("sv-clone", "bad", "P08", [(ST, "Self::SeeOther => Self::SeeOther", "Self::SeeOther => Self::Found")]),
    ("sv-disp-nosp", "bad", "P08", [(ST, "write!(f, \"{} {}\", code, self.reason())", "write!(f, \"{}-{}\", code, self.reason())")]),
    ("sv-disp-debug", "bad", "P08", [(ST, "write!(f, \"{} {}\", code, self.reason())", "write!(f, \"{:02} {:?}\", code, self.reason())")]),
    ("sv-vfrom", "bad", "P08", [(VE, "\"HTTP/2\" => Ok(Version::HTTP2)", "\"HTTP/2\" | \"HTTP/2.0\" => Ok(Version::HTTP2)")]),
    ("sv-vfrom-prefix", "bad", "P08", [(VE, "            _ => Err(ParseVersionError::new(s)),", "            s if s.starts_with(\"HTTP/1.1\") => Ok(Version::HTTP1_1),\n            _ => Err(ParseVersionError::new(s)),")]),
    ("sv-vdisp", "bad", "P08", [(VE, "Version::HTTP2 => write!(f, \"HTTP/2\")", "Version::HTTP2 => write!(f, \"HTTP/2.0\")")]),
    ("sv-mfrom-case", "bad", "P08", [(H, M_FROM_A, M_FROM_A.replace("match s {", "match s.to_uppercase().as_str() {"))]),
    ("sv-mfrom-trim", "bad", "P08", [(H, M_FROM_A, M_FROM_A.replace("match s {", "match s.trim() {"))]),
    ("sv-mfrom-first", "bad", "P08", [(H, M_FROM_A, M_FROM_A.replace("_ => Err", "s if s.starts_with(\"GET\") => Ok(HttpMethod::GET),\n            _ => Err"))]),
    ("sv-mfrom-put", "bad", "P08", [(H, "\"PATCH\" => Ok(HttpMethod::PATCH),", "\"PATCH\" => Ok(HttpMethod::PUT),")]),
]
