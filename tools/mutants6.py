"""P04: headers"""
HH = "wruster/src/http/headers.rs"
HM = "wruster/src/http/mod.rs"
MUTANTS = [
    ("hd-space-colon", "bad", "P04", [(HH, "        // After the token we MUST receive a colon.\n", "        while i < line.len() && (line[i] as char).is_optional_white_space() {\n            i += 1;\n        }\n        // After the token we MUST receive a colon.\n")]),
    ("hd-token-slash", "bad", "P04", [(HM, "'_', '`', '|', '~',", "'_', '`', '|', '~', '/',")]),
    ("hd-token-ctl", "bad", "P04", [(HM, "        let valid_token_symbols", "        if self.is_control() { return true; }\n        let valid_token_symbols")]),
    ("hd-token-utf", "bad", "P04", [(HM, "        if !self.is_ascii() {\n            return false;\n        }\n", "")]),
    ("hd-value-ctl", "bad", "P04", [(HM, "        if *self as u8 >= 0x80 {", "        if *self as u8 >= 0x7f {")]),
    ("hd-value-cr", "bad", "P04", [(HM, "        self.is_valid_vchar() || self.is_optional_white_space()", "        self.is_valid_vchar() || self.is_ascii_whitespace()")]),
    ("hd-ows-more", "bad", "P04", [(HM, "        *self == ' ' || *self == '\\t'", "        *self == ' ' || *self == '\\t' || *self == '\"'")]),
    ("hd-start", "bad", "P04", [(HH, "let mut header_value_start = i + 1;", "let mut header_value_start = (i + 2).min(line.len());")]),
    ("hd-trim", "bad", "P04", [(HH, "field_value.trim_end_matches([' ', '\\t']).to_string()", "field_value.trim().to_string()")]),
    ("hd-trim-quote", "bad", "P04", [(HH, "field_value.trim_end_matches([' ', '\\t'])", "field_value.trim_end_matches([' ', '\\t', ';'])")]),
    ("hd-notrim", "bad", "P04", [(HH, "field_value.trim_end_matches([' ', '\\t']).to_string()", "field_value")]),
    ("hd-skip-bad", "bad", "P04", [(HH, "                return Err(InvalidRequest(\"invalid header name value\".to_string()));\n            }\n            field_value.push(c);", "                continue;\n            }\n            if c == '\\u{ff}' {\n                continue;\n            }\n            field_value.push(c);")]),
    ("hd-lower-value", "bad", "P04", [(HH, "            field_value.push(c);", "            field_value.push(if name.len() == 10 { c.to_ascii_lowercase() } else { c });")]),
    ("hd-no-name", "bad", "P04", [(HH, "        if name.is_empty() {", "        if name.is_empty() && line.len() < 2 {")]),
    ("hd-nocolon", "bad", "P04", [(HH, "        if i >= line.len() || line[i] != b':' {", "        if i >= line.len() || (line[i] != b':' && line[i] != b'=') {")]),
    ("hd-not-normal", "bad", "P04", [(HH, "        name = normalize_header_name(name);", "        if !name.starts_with('x') {\n            name = normalize_header_name(name);\n        }")]),
    ("hd-norm-upper", "bad", "P04", [(HH, "        if c.is_ascii_alphanumeric() && next_alfanum_upper {", "        if c.is_ascii_uppercase() && next_alfanum_upper {")]),
    ("hd-norm-keep", "bad", "P04", [(HH, "        normalized.push(c.to_ascii_lowercase());", "        normalized.push(c);")]),
    ("hd-norm-flag", "bad", "P04", [(HH, "            next_alfanum_upper = false;\n", "            next_alfanum_upper = c == 'T';\n")]),
    ("hd-norm-us", "bad", "P04", [(HH, "c == char::from(b' ') || c == char::from(b'-')", "c == char::from(b' ') || c == char::from(b'_')")]),
    ("hd-norm-drop", "bad", "P04", [(HH, "        if c == char::from(b' ') || c == char::from(b'-') {\n", "        if c == '`' {\n            continue;\n        }\n        if c == char::from(b' ') || c == char::from(b'-') {\n")]),
    ("hd-norm-repl", "bad", "P04", [(HH, "        normalized.push(c.to_ascii_lowercase());", "        normalized.push(if c == '_' { '-' } else { c.to_ascii_lowercase() });")]),
    ("hd-add-last", "bad", "P04", [(HH, "        let values = self.headers.entry(name).or_default();\n        values.push(content);", "        self.headers.insert(name, vec![content]);")]),
    ("hd-add-front", "bad", "P04", [(HH, "        values.push(content);", "        values.insert(0, content);")]),
    ("hd-add-dedup", "bad", "P04", [(HH, "        values.push(content);", "        values.push(content);\n        values.dedup();")]),
    ("hd-add-cond", "bad", "P04", [(HH, "        values.push(content);", "        if values.len() < 64 {\n            values.push(content);\n        }")]),
    ("hd-add-key", "bad", "P04", [(HH, "        let values = self.headers.entry(name).or_default();", "        let values = self.headers.entry(content.clone()).or_default();")]),
    ("hd-add-empty", "bad", "P04", [(HH, "        values.push(content);", "        if values.is_empty() || !content.is_empty() {\n            values.push(content);\n        }")]),
    ("hd-get-first", "bad", "P04", [(HH, "        self.headers.get(name)\n", "        self.headers.get(name).or_else(|| self.headers.values().next())\n")]),
    ("hd-get-empty", "bad", "P04", [(HH, "        self.headers.get(name)\n", "        self.headers.get(name).filter(|v| v.len() > 1 || !v[0].is_empty())\n")]),
    ("hd-read-limit", "bad", "P04", [(HH, "                    headers.add(header);\n                }\n            };", "                    if headers.headers.len() < 100 {\n                        headers.add(header);\n                    }\n                }\n            };")]),
    ("hd-read-stop", "bad", "P04", [(HH, "                    headers.add(header);\n                }\n            };", "                    if header.value.is_empty() {\n                        break;\n                    }\n                    headers.add(header);\n                }\n            };")]),
    ("hd-read-twice", "bad", "P04", [(HH, "                    headers.add(header);\n                }\n            };", "                    if header.name == \"Cookie\" {\n                        headers.add(Header { name: header.name.clone(), value: header.value.clone() });\n                    }\n                    headers.add(header);\n                }\n            };")]),
    ("hd-lookup-lower", "bad", "P04", [(HM, "match headers.get(\"Content-Type\")", "match headers.get(\"Content-type\")")]),
    # the same
    ("hd-add-match", "same", "P04", [(HH, "        let values = self.headers.entry(name).or_default();\n        values.push(content);", "        match self.headers.get_mut(&name) {\n            Some(values) => values.push(content),\n            None => {\n                self.headers.insert(name, vec![content]);\n            }\n        }")]),
    ("hd-add-entry", "same", "P04", [(HH, "        let values = self.headers.entry(name).or_default();\n        values.push(content);", "        use std::collections::hash_map::Entry;\n        match self.headers.entry(name) {\n            Entry::Occupied(mut o) => o.get_mut().push(content),\n            Entry::Vacant(v) => {\n                v.insert(vec![content]);\n            }\n        }")]),
    ("hd-add-orinsert", "same", "P04", [(HH, "        let values = self.headers.entry(name).or_default();\n        values.push(content);", "        self.headers.entry(name).or_insert_with(Vec::new).push(content);")]),
    ("hd-while", "same", "P04", [(HH, """        loop {
            let header = Header::read_from(from)?;
            match header {
                None => {
                    break;
                }
                Some(header) => {
                    headers.add(header);
                }
            };
        }
""", """        while let Some(header) = Header::read_from(from)? {
            headers.add(header);
        }
""")]),
    ("hd-iter-name", "same", "P04", [(HH, """        let mut i = 0;
        while i < line.len() {
            let c = line[i] as char;
            if !c.is_valid_token_char() {
                break;
            };
            name.push(c);
            i += 1;
        }
""", """        let mut i = 0;
        for b in line.iter() {
            let c = *b as char;
            if !c.is_valid_token_char() {
                break;
            }
            name.push(c);
            i += 1;
        }
""")]),
    ("hd-iter-value", "same", "P04", [(HH, """        for j in header_value_start..line.len() {
            let c = line[j] as char;
            if !c.is_valid_field_content() {
                debug!(
                    "invalid header value line: {}, char {}, position {}",
                    String::from_utf8_lossy(line),
                    c,
                    j
                );
""", """        for b in &line[header_value_start..] {
            let c = *b as char;
            if !c.is_valid_field_content() {
""")]),
    ("hd-matches", "same", "P04", [(HM, """        if valid_token_symbols.contains(self) {
            return true;
        };
        false
""", """        valid_token_symbols.iter().any(|s| s == self)
"""), ]),
    ("hd-matches2", "same", "P04", [(HM, """        let valid_token_symbols = [
            '!', '#', '$', '%', '&', '\\'', '*', '+', '-', '.', '^', '_', '`', '|', '~',
        ];
        if valid_token_symbols.contains(self) {
            return true;
        };
        false
""", """        matches!(
            *self,
            '!' | '#' | '$' | '%' | '&' | '\\'' | '*' | '+' | '-' | '.' | '^' | '_' | '`' | '|' | '~'
        )
""")]),
    ("hd-norm-if", "same", "P04", [(HH, """        if c.is_ascii_alphanumeric() && next_alfanum_upper {
            normalized.push(c.to_ascii_uppercase());
            next_alfanum_upper = false;
            continue;
        };
        if c == char::from(b' ') || c == char::from(b'-') {
            next_alfanum_upper = true;
        }
        normalized.push(c.to_ascii_lowercase());
""", """        if next_alfanum_upper {
            normalized.push(c.to_ascii_uppercase());
        } else {
            normalized.push(c.to_ascii_lowercase());
        }
        next_alfanum_upper = (next_alfanum_upper && !c.is_ascii_alphanumeric()) || c == ' ' || c == '-';
""")]),
    ("hd-norm-map", "same", "P04", [(HH, """    let mut normalized = String::new();
    let mut next_alfanum_upper = true;
    for c in name.chars() {""", """    let mut normalized = String::with_capacity(name.len());
    let mut next_alfanum_upper = true;
    for b in name.bytes() {
        let c = char::from(b);""")]),
    ("hd-colon-first", "same", "P04", [(HH, """        let mut name = String::new();
        let mut i = 0;
        while i < line.len() {
            let c = line[i] as char;
            if !c.is_valid_token_char() {
                break;
            };
            name.push(c);
            i += 1;
        }
""", """        let mut name = String::new();
        let mut i = 0;
        while i < line.len() && line[i] != b':' {
            let c = line[i] as char;
            if !c.is_valid_token_char() {
                return Err(InvalidRequest("invalid header name line".to_string()));
            };
            name.push(c);
            i += 1;
        }
""")]),
    ("hd-trim-loop", "same", "P04", [(HH, "        let field_value = field_value.trim_end_matches([' ', '\\t']).to_string();", "        while field_value.ends_with(' ') || field_value.ends_with('\\t') {\n            field_value.pop();\n        }")]),
    ("hd-trim-index", "same", "P04", [(HH, "        header_value_start = j;\n        for j in header_value_start..line.len() {", "        header_value_start = j;\n        let mut end = line.len();\n        while end > header_value_start && (line[end - 1] as char).is_optional_white_space() {\n            end -= 1;\n        }\n        for j in header_value_start..end {"), (HH, "        let field_value = field_value.trim_end_matches([' ', '\\t']).to_string();\n", "")]),
    ("hd-get-named", "same", "P04", [(HH, "        self.headers.get(name)\n", "        match self.headers.get(name) {\n            Some(values) => Some(values),\n            None => None,\n        }\n")]),
    ("hd-skip-pos", "same", "P04", [(HH, """        let mut j = header_value_start;
        while j < line.len() && (line[j] as char).is_optional_white_space() {
            j += 1;
        }
        header_value_start = j;
""", """        while header_value_start < line.len() {
            if !(line[header_value_start] as char).is_optional_white_space() {
                break;
            }
            header_value_start += 1;
        }
""")]),
]
