HS = "wruster_handlers/src/lib.rs"
TR, RM = "wruster/src/router/trie.rs", "wruster/src/router/mod.rs"
_pre = """    fn get_value_prefix<'a>(&'a self, key: &[u8], prefix_value: Option<&'a T>) -> Option<&T> {
        if key.is_empty() {
            if self.value.is_none() {
                return prefix_value;
            }
            return self.value.as_ref();
        }
        let pos = key[0] as usize;
        let children = &self.children;
        let child = match &children[pos] {
            None => {
                if self.value.is_some() {
                    return self.value.as_ref();
                }
                return prefix_value;
            }
            Some(node) => node,
        };
        let next_parent = match &self.value {
            None => prefix_value,
            Some(value) => Some(value),
        };
        child.get_value_prefix(&key[1..], next_parent)
    }"""
_topbody = """        let pos = key[0] as usize;
        let children = &self.children;
        let child = match &children[pos] {
            None => return None,
            Some(node) => node,
        };
        child.get_value_prefix(&key[1..], None)
    }"""
_addc = """        let next = key[0] as usize;
        if children[next].is_none() {
            let new_node = Node::<T>::new();
            children[next] = Some(new_node);
        };
        let mut child = children[next].take().unwrap();
        child.add_value(&key[1..], value);
        children[next] = Some(child);"""
_mv = """        let children = &mut self.children;
        let child = match &mut children[pos] {
            None => return None,
            Some(node) => node,
        };
        child.move_value_out(&key[1..])"""
_empty = """        let mut children = Vec::new();
        for _ in 0..256 {
            children.push(None);
        }
        children"""
MUTANTS = [
    # ---- routing (P24)
    ("rt-best-order", "bad", "P24", [(TR, """            None => prefix_value,
            Some(value) => Some(value),
        };
        child""", """            None => prefix_value,
            Some(value) => prefix_value.or(Some(value)),
        };
        child""")]),
    ("rt-best-lost", "bad", "P24", [(TR, """        let next_parent = match &self.value {
            None => prefix_value,""", """        let next_parent = match &self.value {
            None if key[0] == b'/' => None,
            None => prefix_value,""")]),
    ("rt-end-none", "bad", "P24", [(TR, """            if self.value.is_none() {
                return prefix_value;
            }
            return self.value.as_ref();
        }
        let pos = key[0] as usize;
        let children = &self.children;
        let child = match &children[pos] {
            None => {""", """            return self.value.as_ref();
        }
        let pos = key[0] as usize;
        let children = &self.children;
        let child = match &children[pos] {
            None => {""")]),
    ("rt-stop-early", "bad", "P24", [(TR, "            None => {\n                if self.value.is_some() {", "            None => {\n                if prefix_value.is_some() {\n                    return prefix_value;\n                }\n                if self.value.is_some() {")]),
    ("rt-skip2", "bad", "P24", [(TR, "child.get_value_prefix(&key[1..], next_parent)", "child.get_value_prefix(if key.len() > 2 && key[0] == b'/' && key[1] == b'/' { &key[2..] } else { &key[1..] }, next_parent)")]),
    ("rt-lower", "bad", "P24", [(TR, _topbody, _topbody.replace("key[0] as usize", "key[0].to_ascii_lowercase() as usize"))]),
    ("rt-top-none", "bad", "P24", [(TR, "    pub fn get_value_prefix(&self, key: &[u8]) -> Option<&T> {\n        if key.is_empty() {", "    pub fn get_value_prefix(&self, key: &[u8]) -> Option<&T> {\n        if key.len() < 2 {")]),
    ("rt-255", "bad", "P24", [(TR, "0..256", "0..255")]),
    ("rt-last-small", "bad", "P24", [(RM, "0..HttpMethod::get_last() as usize + 1", "0..HttpMethod::get_last() as usize")]),
    ("rt-add-drops", "bad", "P24", [(RM, """            Some(route_actions) => route_actions,
        };
        router""", """            Some(route_actions) if route.len() < 2 => route_actions,
            Some(_) => MethodHandlers::new(),
        };
        router""")]),
    ("rt-add-get", "bad", "P24", [(RM, "[method as usize] = Some(Arc::new(action));", "[if matches!(method, HttpMethod::PATCH) { HttpMethod::PUT } else { method } as usize] = Some(Arc::new(action));")]),
    ("rt-add-first", "bad", "P24", [(RM, "        router_handlers.actions.borrow_mut()[method as usize] = Some(Arc::new(action));", "        router_handlers.actions.borrow_mut()[method as usize].get_or_insert(Arc::new(action));")]),
    ("rt-add-trim", "bad", "P24", [(RM, "        routes.add_value(route.as_bytes(), router_handlers);", "        routes.add_value(route.trim_end().as_bytes(), router_handlers);")]),
    ("rt-get-head", "bad", "P24", [(RM, """        method_actions.get_action(method)
    }
}""", """        method_actions.get_action(if let HttpMethod::HEAD = method { HttpMethod::GET } else { method })
    }
}""")]),
    ("rt-replace-node", "bad", "P24", [(TR, "if children[next].is_none() {", "if children[next].is_none() || key.len() == 1 {")]),
    ("rt-lose-node", "bad", "P24", [(TR, _addc, _addc.replace("        child.add_value(&key[1..], value);\n        children[next] = Some(child);", "        child.add_value(&key[1..], value);\n        if child.value.is_some() || key.len() > 1 {\n            children[next] = Some(child);\n        }"))]),
    ("rt-add-value-keep", "bad", "P24", [(TR, "            self.value = Some(value);\n            return;", "            self.value.get_or_insert(value);\n            return;")]),
    ("rt-move-any", "bad", "P24", [(TR, "            return self.value.take();\n        }\n        let pos = key[0] as usize;", "            return self.value.take();\n        }\n        if self.children[key[0] as usize].is_none() {\n            return self.value.take();\n        }\n        let pos = key[0] as usize;")]),
    ("rt-move-kids", "bad", "P24", [(TR, "            return self.value.take();\n        }\n        let pos = key[0] as usize;", "            self.children = Self::empty_children();\n            return self.value.take();\n        }\n        let pos = key[0] as usize;")]),
    ("rt-clear-above", "bad", "P24", [(TR, "        Self::add_value_to_children(&mut self.children, key, value);\n    }", "        if key == b\"/\" {\n            self.value = None;\n        }\n        Self::add_value_to_children(&mut self.children, key, value);\n    }")]),
    ("rt-other-slot", "bad", "P24", [(TR, "        children[next] = Some(child);\n    }", "        children[next] = Some(child);\n        if next == b'/' as usize {\n            children[b'\\\\' as usize] = None;\n        }\n    }")]),
    ("rt-unwrap", "bad", "P24", [(RM, """            .as_ref()
            .map(|action| Arc::clone(action))""", """            .as_ref()
            .map(|action| Arc::clone(action))
            .or_else(|| Some(Arc::clone(actions.first().unwrap().as_ref().unwrap())))""")]),
    ("rt-take-unwrap", "bad", "P24", [(TR, "        if children[next].is_none() {\n            let", "        if children[next].is_none() && key.len() != 3 {\n            let")]),
    ("rt-slice2", "bad", "P24", [(TR, "            return self.value.as_ref();\n        }\n        let pos = key[0] as usize;\n        let children = &self.children;\n        let child = match &children[pos] {\n            None => {", "            return self.value.as_ref();\n        }\n        if key[1] == 0 {\n            return prefix_value;\n        }\n        let pos = key[0] as usize;\n        let children = &self.children;\n        let child = match &children[pos] {\n            None => {")]),
    # kept
    ("rt-or-after", "same", "P24", [(TR, _pre, """    fn get_value_prefix<'a>(&'a self, key: &[u8], prefix_value: Option<&'a T>) -> Option<&'a T> {
        let best = self.value.as_ref().or(prefix_value);
        match key.split_first() {
            None => best,
            Some((first, rest)) => match &self.children[*first as usize] {
                None => best,
                Some(child) => child.get_value_prefix(rest, best),
            },
        }
    }""")]),
    ("rt-after-rec", "same", "P24", [(TR, _pre, """    fn get_value_prefix<'a>(&'a self, key: &[u8], prefix_value: Option<&'a T>) -> Option<&'a T> {
        let own = self.value.as_ref().or(prefix_value);
        if key.is_empty() {
            return own;
        }
        let found = match &self.children[key[0] as usize] {
            None => None,
            Some(child) => child.get_value_prefix(&key[1..], None),
        };
        found.or(own)
    }""")]),
    ("rt-loop", "same", "P24", [(TR, _topbody, """        let mut best = None;
        let mut children = &self.children;
        for b in key {
            match &children[*b as usize] {
                None => return best,
                Some(node) => {
                    if node.value.is_some() {
                        best = node.value.as_ref();
                    }
                    children = &node.children;
                }
            }
        }
        best
    }""")]),
    ("rt-loop-node", "same", "P24", [(TR, _topbody, """        let mut node = match self.children[key[0] as usize].as_ref() {
            Some(n) => n,
            None => return None,
        };
        let mut best = node.value.as_ref();
        for &b in &key[1..] {
            node = match node.children[b as usize].as_ref() {
                Some(n) => n,
                None => break,
            };
            if let Some(v) = &node.value {
                best = Some(v);
            }
        }
        best
    }""")]),
    ("rt-add-insert-with", "same", "P24", [(TR, _addc, "        let next = key[0] as usize;\n        children[next].get_or_insert_with(Node::<T>::new).add_value(&key[1..], value);")]),
    ("rt-add-match", "same", "P24", [(TR, _addc, """        let slot = &mut children[key[0] as usize];
        match slot {
            Some(child) => child.add_value(&key[1..], value),
            None => {
                let mut child = Node::<T>::new();
                child.add_value(&key[1..], value);
                *slot = Some(child);
            }
        }""")]),
    ("rt-add-loop", "same", "P24", [(TR, """        if key.is_empty() {
            self.value = Some(value);
            return;
        }
        Self::add_value_to_children(&mut self.children, key, value);""", """        let mut node = self;
        for b in key {
            node = node.children[*b as usize].get_or_insert_with(Node::<T>::new);
        }
        node.value = Some(value);""")]),
    ("rt-move-q", "same", "P24", [(TR, _mv, "        self.children[pos].as_mut()?.move_value_out(&key[1..])"), (TR, _mv, "        self.children[pos].as_mut()?.move_value_out(&key[1..])")]),
    ("rt-move-loop", "same", "P24", [(TR, """        if key.is_empty() {
            return self.value.take();
        }
        let pos = key[0] as usize;
""" + _mv, """        let mut node = self;
        for b in key {
            node = node.children[*b as usize].as_mut()?;
        }
        node.value.take()""")]),
    ("rt-resize", "same", "P24", [(TR, _empty, "        let mut children = Vec::new();\n        children.resize_with(256, || None);\n        children")]),
    ("rt-collect", "same", "P24", [(TR, _empty, "        (0..256).map(|_| None).collect()")]),
    ("rt-incl", "same", "P24", [(TR, "for _ in 0..256 {", "for _ in 0..=u8::MAX {")]),
    ("rt-while", "same", "P24", [(TR, "        for _ in 0..256 {\n            children.push(None);\n        }", "        while children.len() < 256 {\n            children.push(None);\n        }")]),
    ("rt-add-unwrap-or-else", "same", "P24", [(RM, """match routes.move_value_out(route.as_bytes()) {
            None => MethodHandlers::new(),
            Some(route_actions) => route_actions,
        };""", "routes.move_value_out(route.as_bytes()).unwrap_or_else(MethodHandlers::new);")]),
    ("rt-add-set-helper", "same", "P24", [(RM, "        router_handlers.actions.borrow_mut()[method as usize] = Some(Arc::new(action));", "        router_handlers.set_action(method, action);"),
        (RM, "    fn get_action(&self", "    fn set_action(&self, method: HttpMethod, action: HttpHandler) {\n        let mut actions = self.actions.borrow_mut();\n        actions[method as usize] = Some(Arc::new(action));\n    }\n\n    fn get_action(&self")]),
    ("rt-get-clone", "same", "P24", [(RM, "            .as_ref()\n            .map(|action| Arc::clone(action))", "            .clone()")]),
    ("rt-get-and-then", "same", "P24", [(RM, """        let method_actions = match routes.get_value_prefix(route.as_bytes()) {
            None => return None,
            Some(actions) => actions,
        };
        method_actions.get_action(method)""", "        routes\n            .get_value_prefix(route.as_bytes())\n            .and_then(|actions| actions.get_action(method))")]),
    # ---- normalised targets (P25)
    ("np-no-root", "bad", "P25", [(RM, "        if !self.has_root() {\n            return Err(\"invalid path\");\n        }\n", "")]),
    ("np-parent-ignore", "bad", "P25", [(RM, """                        None => {
                            return Err("invalid path");
                        }
                        Some(parent) => {
                            let""", """                        None => continue,
                        Some(parent) => {
                            let""")]),
    ("np-parent-push", "bad", "P25", [(RM, "                        Some(parent) => {\n                            let mut new_parent = path::PathBuf::new();", "                        Some(parent) if parent.parent().is_none() => normalized.push(component),\n                        Some(parent) => {\n                            let mut new_parent = path::PathBuf::new();")]),
    ("np-break", "bad", "P25", [(RM, "Component::CurDir => continue,", "Component::CurDir => break,")]),
    ("np-skip-hidden", "bad", "P25", [(RM, "                Component::Normal(dir) => {\n                    normalized.push(dir);", "                Component::Normal(dir) => {\n                    if dir == \"...\" {\n                        continue;\n                    }\n                    normalized.push(dir);")]),
    ("np-raw-uri", "bad", "P25", [(L, "    request.uri = String::from(normalized);\n", "    if request.uri.len() > 4096 {\n        request.uri = String::from(normalized);\n    }\n")]),
    ("np-route-raw", "bad", "P25", [(L, "routes.get_prefix(String::from(normalized), request.method)", "routes.get_prefix(request.uri.clone(), request.method)")]),
    ("np-trim", "bad", "P25", [(L, "    request.uri = String::from(normalized);", "    request.uri = String::from(normalized.trim_end_matches('.'));")]),
    ("np-double", "bad", "P25", [(RM, "                    normalized.push(dir);", "                    normalized.push(dir);\n                    if dir.len() == 255 {\n                        normalized.push(dir);\n                    }")]),
    ("np-pop", "same", "P25", [(RM, """                    match normalized.parent() {
                        None => {
                            return Err("invalid path");
                        }
                        Some(parent) => {
                            let mut new_parent = path::PathBuf::new();
                            new_parent.push(parent);
                            normalized = new_parent;
                        }
                    };""", """                    if !normalized.pop() {
                        return Err("invalid path");
                    }""")]),
    ("np-tobuf", "same", "P25", [(RM, """                            let mut new_parent = path::PathBuf::new();
                            new_parent.push(parent);
                            normalized = new_parent;""", """                            normalized = parent.to_path_buf();""")]),
    ("np-okor", "same", "P25", [(RM, """                    match normalized.parent() {
                        None => {
                            return Err("invalid path");
                        }
                        Some(parent) => {
                            let mut new_parent = path::PathBuf::new();
                            new_parent.push(parent);
                            normalized = new_parent;
                        }
                    };""", """                    normalized = normalized.parent().ok_or("invalid path")?.into();""")]),
    ("np-while", "same", "P25", [(RM, "        for component in self.components() {", "        let mut components = self.components();\n        while let Some(component) = components.next() {")]),
    ("np-if", "same", "P25", [(RM, "                Component::CurDir => continue,", "                Component::CurDir => (),")]),
    ("np-vec", "same", "P25", [(RM, """        let mut normalized = path::PathBuf::new();
        if !self""", """        let mut parts = Vec::new();
        if !self"""), (RM, """            match component {
                Component::RootDir => normalized.push(Component::RootDir),
                Component::Prefix(_) => normalized.push(Component::RootDir),
                Component::CurDir => continue,
                Component::ParentDir => {
                    match normalized.parent() {
                        None => {
                            return Err("invalid path");
                        }
                        Some(parent) => {
                            let mut new_parent = path::PathBuf::new();
                            new_parent.push(parent);
                            normalized = new_parent;
                        }
                    };
                }
                Component::Normal(dir) => {
                    normalized.push(dir);
                }
            };
        }
        Ok(normalized)""", """            match component {
                Component::RootDir | Component::Prefix(_) => parts.push(std::ffi::OsStr::new("/")),
                Component::CurDir => continue,
                Component::ParentDir => {
                    if parts.len() < 2 {
                        return Err("invalid path");
                    }
                    parts.pop();
                }
                Component::Normal(dir) => parts.push(dir),
            };
        }
        Ok(parts.iter().collect())""")]),
    ("np-move-uri", "same", "P25", [(L, """    let action = match routes.get_prefix(String::from(normalized), request.method) {
        Some(action) => action,
        None => return Response::from_status(StatusCode::NotFound),
    };
    request.uri = String::from(normalized);
""", """    request.uri = normalized.to_owned();
    let action = match routes.get_prefix(request.uri.clone(), request.method) {
        Some(action) => action,
        None => return Response::from_status(StatusCode::NotFound),
    };
""")]),
    # ---- static files (P31)
    ("sf-dir", "bad", "P31", [(HS, "    if !metadata.is_file() {\n        return Response::from_status(StatusCode::NotFound);\n    }\n", "")]),
    ("sf-symlink", "bad", "P31", [(HS, "fs::metadata(&path)", "fs::symlink_metadata(&path)")]),
    ("sf-root-index", "bad", "P31", [(HS, "        if uri.len() < 2 {\n            return Response::from_status(StatusCode::NotFound);\n        }\n        uri = &uri[1..]", "        uri = if uri.len() < 2 { \"index.html\" } else { &uri[1..] }")]),
    ("sf-404-all", "bad", "P31", [(HS, "            if let io::ErrorKind::NotFound = err.kind() {\n                return Response::from_status(StatusCode::NotFound);\n            }\n            return Response::from_status(StatusCode::InternalServerError);", "            info!(\"{}\", err);\n            return Response::from_status(StatusCode::NotFound);")]),
    ("sf-500-missing", "bad", "P31", [(HS, """        Ok(content) => content,
        Err(err) => {
            if let io::ErrorKind::NotFound = err.kind()""", """        Ok(content) => content,
        Err(err) => {
            if let io::ErrorKind::PermissionDenied = err.kind()""")]),
    ("sf-gz", "bad", "P31", [(HS, "match fs::File::open(&path) {", "match fs::File::open(if metadata.len() > 1_000_000 { path.with_extension(\"gz\") } else { path.clone() }) {")]),
    ("sf-len", "bad", "P31", [(HS, "Body::new(Some(mime_type), metadata.len(), content)", "Body::new(Some(mime_type), metadata.len().min(1 << 20), content)")]),
    ("sf-cl", "bad", "P31", [(HS, "value: metadata.len().to_string(),", "value: metadata.len().saturating_sub(1).to_string(),")]),
    ("sf-take", "bad", "P31", [(HS, "let content: Box<dyn Read> = Box::new(content);", "let content: Box<dyn Read> = Box::new(std::io::Cursor::new(Vec::<u8>::new()).chain(content.take(4096)));")]),
    ("sf-uri-abs", "bad", "P31", [(HS, "    let mut path = base_path;\n    path.push(uri);", "    let mut path = base_path;\n    if !uri.is_empty() {\n        path = PathBuf::from(uri);\n    }")]),
    ("sf-raw", "bad", "P31", [(HS, "    path.push(uri);", "    path.push(request.uri.as_str().trim_end_matches('/'));")]),
    ("sf-slash", "bad", "P31", [(HS, "        uri = &uri[1..]", "        uri = &uri[2..]")]),
    ("sf-unwrap", "bad", "P31", [(HS, "mime_guess::from_path(path).first_or_octet_stream()", "mime_guess::from_path(path).first().unwrap()")]),
    ("sf-octet", "bad", "P31", [(HS, "value: mime_type.to_string(),", "value: String::from(\"application/octet-stream\"),")]),
    ("sf-handle-md", "same", "P31", [(HS, """    // Only the content of a file can be served.
    if !metadata.is_file() {
        return Response::from_status(StatusCode::NotFound);
    }
""", ""), (HS, """    let metadata = match fs::metadata(&path) {
        Ok(metadata) => metadata,
        Err(err) => {
            if let io::ErrorKind::NotFound = err.kind() {
                return Response::from_status(StatusCode::NotFound);
            }
            return Response::from_status(StatusCode::InternalServerError);
        }
    };
""", ""), (HS, "    let mime_type =", """    let metadata = match content.metadata() {
        Ok(metadata) => metadata,
        Err(_) => return Response::from_status(StatusCode::InternalServerError),
    };
    if !metadata.is_file() {
        return Response::from_status(StatusCode::NotFound);
    }
    let mime_type =""")]),
    ("sf-helper", "same", "P31", [(HS, """        Err(err) => {
            if let io::ErrorKind::NotFound = err.kind() {
                return Response::from_status(StatusCode::NotFound);
            }
            return Response::from_status(StatusCode::InternalServerError);
        }
    };
    // Only""", """        Err(err) => return failure(&err),
    };
    // Only"""), (HS, "/**\nA middleware", "fn failure(err: &io::Error) -> Response {\n    let status = if err.kind() == io::ErrorKind::NotFound { StatusCode::NotFound } else { StatusCode::InternalServerError };\n    Response::from_status(status)\n}\n\n/**\nA middleware")]),
    ("sf-strip", "same", "P31", [(HS, """    let mut uri = request.uri.as_str();
    if uri.starts_with('/') {
        if uri.len() < 2 {
            return Response::from_status(StatusCode::NotFound);
        }
        uri = &uri[1..]
    }
    let mut path = base_path;
    path.push(uri);""", """    let uri = request.uri.strip_prefix('/').unwrap_or(&request.uri);
    if uri.is_empty() {
        return Response::from_status(StatusCode::NotFound);
    }
    let path = base_path.join(uri);""")]),
    ("sf-match-kind", "same", "P31", [(HS, """            if let io::ErrorKind::NotFound = err.kind() {
                return Response::from_status(StatusCode::NotFound);
            }
            return Response::from_status(StatusCode::InternalServerError);""", """            return Response::from_status(match err.kind() {
                io::ErrorKind::NotFound => StatusCode::NotFound,
                _ => StatusCode::InternalServerError,
            });""")]),
    ("sf-content", "same", "P31", [(HS, """    let mut headers = Headers::new();
    let content: Box<dyn Read> = Box::new(content);
    headers.add(Header {
        name: String::from("Content-Length"),
        value: metadata.len().to_string(),
    });
    headers.add(Header {
        name: String::from("Content-Type"),
        value: mime_type.to_string(),
    });
    let body = Body::new(Some(mime_type), metadata.len(), content);
    Response {
        status: StatusCode::OK,
        headers,
        body: Some(body),
    }""", """    let _: Option<(Header, Body, Headers, Box<dyn Read>)> = None;
    Response::from_content(content, metadata.len(), mime_type)""")]),
    # --- P32 the logging middleware
    ("lm-twice", "bad", "P32", [(HS, """        response
    })""", """        if log::max_level() == log::LevelFilter::Trace { return handler(request); }
        response
    })""")]),
    ("lm-skip", "bad", "P32", [(HS, "        let response = handler(request);\n        info!", "        let response = if request.uri.contains(\"favicon\") { Response::from_status(StatusCode::NotFound) } else { handler(request) };\n        info!")]),
    ("lm-body", "bad", "P32", [(HS, "        info!(\"request {:?}\", request);", "        if log::max_level() == log::LevelFilter::Trace {\n            if let Some(body) = request.body.as_mut() { let mut s = String::new(); let _ = body.content.read_to_string(&mut s); info!(\"{}\", s); }\n        }\n        info!(\"request {:?}\", request);")]),
    ("lm-take", "bad", "P32", [(HS, "        info!(\"request {:?}\", request);", "        info!(\"request {:?}\", (&request.method, &request.uri, request.body.take()));")]),
    ("lm-uri", "bad", "P32", [(HS, "        info!(\"request {:?}\", request);", "        info!(\"request {:?}\", request);\n        request.uri.truncate(1024);")]),
    ("lm-status", "bad", "P32", [(HS, "        let response = handler(request);", "        let mut response = handler(request);\n        if response.body.is_none() { response.status = StatusCode::NoContent; }")]),
    ("lm-hdr", "bad", "P32", [(HS, "        let response = handler(request);", "        let mut response = handler(request);\n        response.headers.add(Header { name: String::from(\"X\"), value: String::new() });")]),
    ("lm-drain", "bad", "P32", [(HS, "        let response = handler(request);", "        let mut response = handler(request);\n        if response.status == StatusCode::InternalServerError { if let Some(body) = response.body.as_mut() { let mut s = String::new(); let _ = body.content.read_to_string(&mut s); info!(\"{}\", s); } }")]),
    ("lm-unwrap", "bad", "P32", [(HS, "        info!(\"response {:?}\", response);", "        info!(\"response {:?} {}\", response, response.body.as_ref().unwrap().content_length);")]),
    ("lm-helper", "same", "P32", [(HS, """        info!("request {:?}", request);
        let response = handler(request);
        info!("response {:?}", response);
        response
    })
}""", """        logged(&handler, request)
    })
}

fn logged(handler: &HttpHandler, request: &mut Request) -> Response {
    info!("request {:?}", request);
    let start = std::time::Instant::now();
    let answer = (*handler)(request);
    info!("response {:?} after {:?}", answer, start.elapsed());
    answer
}""")]),
    ("lm-named", "same", "P32", [(HS, "    Box::new(move |request: &mut Request| {\n        info!", "    let logged = move |request: &mut Request| {\n        info!"), (HS, "        response\n    })", "        response\n    };\n    Box::new(logged)")]),
    ("lm-level", "same", "P32", [(HS, "        info!(\"response {:?}\", response);", "        if let StatusCode::InternalServerError = response.status { error!(\"{:?}\", response) } else { info!(\"response {:?}\", response) }")]),
]
