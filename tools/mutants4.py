CM, CP = "wruster/src/http/client/mod.rs", "wruster/src/http/client/connection_pool.rs"
MUTANTS = [
    # ---- client connections (P27)
    ("cl-no-hasbody", "bad", "P27", [(CM, "                None if self.has_body => return,\n", "")]),
    ("cl-no-ensure", "bad", "P27", [(CM, "                    if let Err(err) = body.ensure_read() {", "                    if let Err(err) = if body.content_length < 4096 { body.ensure_read().map(|_| ()) } else { Ok(()) } {")]),
    ("cl-ensure-go-on", "bad", "P27", [(CM, """                            err
                        );
                        return;
                    }
                }
                // The""", """                            err
                        );
                    }
                }
                // The""")]),
    ("cl-no-reusable", "bad", "P27", [(CM, "        if !self.reusable {\n            return;\n        }\n", "        let _ = self.reusable;\n")]),
    ("cl-not-delimited", "bad", "P27", [(CM, "reusable: persistent && delimited && !close,", "reusable: persistent && !close || (persistent && !delimited && !close),")]),
    ("cl-ignore-close", "bad", "P27", [(CM, "reusable: persistent && delimited && !close,", "reusable: persistent && delimited && (!close || persistent),")]),
    ("cl-close-first", "bad", "P27", [(CM, "values.iter().any(|value| value.to_lowercase() == \"close\")", "values.iter().skip(1).any(|value| value.to_lowercase() == \"close\")")]),
    ("cl-close-first2", "bad", "P27", [(CM, "values.iter().any(|value| value.to_lowercase() == \"close\")", "values.iter().all(|value| value.to_lowercase() == \"close\")")]),
    ("cl-close-case", "bad", "P27", [(CM, "values.iter().any(|value| value.to_lowercase() == \"close\")", "values.iter().any(|value| value == \"Close\")")]),
    ("cl-key-host", "bad", "P27", [(CM, "            addr: addr.to_string(),", "            addr: addr.split(':').next().unwrap_or(addr).to_string(),")]),
    ("cl-get-key", "bad", "P27", [(CM, "                        pool.get(addr)", "                        pool.get(addr.split(':').next().unwrap_or(addr))")]),
    ("cl-any-conn", "bad", "P27 P28", [(CP, "        resources.remove(key)", "        let key = resources.keys().find(|k| k.starts_with(key)).cloned();\n        key.and_then(|key| resources.remove(&key))")]),
    ("cl-not-asked", "bad", "P27", [(CM, "reusable: persistent && delimited && !close,", "reusable: delimited && !close,")]),
    ("cl-insert-early", "bad", "P27", [(CM, "        let has_body = response.body.is_some();\n", """        let has_body = response.body.is_some();
        if !has_body {
            if let (Ok(pool), Ok(conn)) = (self.connection_pool.lock(), response_conn.try_clone()) {
                pool.insert(addr, PoolResource::new(Arc::new(conn)));
            }
        }
""")]),
    ("cl-write-err", "bad", "P27", [(CM, "        request.write(&mut stream)?;\n", "        if let Err(err) = request.write(&mut stream) {\n            error!(\"writing {}\", err);\n        }\n")]),
    ("cl-other-conn", "bad", "P27", [(CM, "        let response_conn = conn.try_clone().map_err(HttpError::from)?;\n", "        let response_conn = Self::connect(addr)?;\n")]),
    ("cl-same-match", "same", "P27", [(CM, """            match self.response.body.as_mut() {
                Some(body) => {
                    if let Err(err) = body.ensure_read() {
                        error!(
                            "error ensuring body in request has completely read: {}",
                            err
                        );
                        return;
                    }
                }
                // The body was taken out of the response, so its owner could
                // still be reading it from the connection.
                None if self.has_body => return,
                None => (),
            }
""", """            if self.has_body && self.response.body.is_none() {
                return;
            }
            if let Some(body) = &mut self.response.body {
                match body.ensure_read() {
                    Ok(_) => (),
                    Err(err) => {
                        error!("skipping {}", err);
                        return;
                    }
                }
            }
""")]),
    ("cl-same-helper", "same", "P27", [(CM, """            let pool = match pool.lock() {
                Ok(pool) => pool,
                Err(_) => {
                    error!("error getting a lock for a client connection pool");
                    return;
                }
            };

            let conn = match self.conn.try_clone() {
                Ok(conn) => conn,
                Err(err) => {
                    error!("error cloning stream {}", err);
                    return;
                }
            };
            let conn = Arc::new(conn);
            pool.insert(&self.addr, PoolResource::new(conn))
        };
    }
}
""", """            self.give_back(&pool);
        };
    }
}

impl ClientResponse {
    fn give_back(&self, pool: &Mutex<Pool<Arc<TcpStream>>>) {
        let conn = match self.conn.try_clone() {
            Ok(conn) => Arc::new(conn),
            Err(err) => {
                error!("error cloning stream {}", err);
                return;
            }
        };
        match pool.lock() {
            Ok(pool) => pool.insert(&self.addr, PoolResource::new(conn)),
            Err(_) => error!("error getting a lock for a client connection pool"),
        }
    }
}
""")]),
    ("cl-same-bitand", "same", "P27", [(CM, "reusable: persistent && delimited && !close,", "reusable: persistent & delimited & !close,")]),
    ("cl-same-loop", "same", "P27", [(CM, """        let close = match response.headers.get("Connection") {
            Some(values) => values.iter().any(|value| value.to_lowercase() == "close"),
            None => false,
        };
""", """        let mut close = false;
        if let Some(values) = response.headers.get("Connection") {
            for value in values {
                if value.eq_ignore_ascii_case("close") {
                    close = true;
                    break;
                }
            }
        }
""")]),
    ("cl-same-map-or", "same", "P27", [(CM, """        let close = match response.headers.get("Connection") {
            Some(values) => values.iter().any(|value| value.to_lowercase() == "close"),
            None => false,
        };
""", """        let close = response
            .headers
            .get("Connection")
            .map_or(false, |values| values.iter().any(|value| value.eq_ignore_ascii_case("close")));
""")]),
    ("cl-same-conn", "same", "P27", [(CM, """        let conn = {
            match persistent {
                true => {
                    // Don't hold the lock of the pool while connecting.
                    let pooled = {
                        let pool = self.connection_pool.lock().map_err(HttpError::from)?;
                        pool.get(addr)
                    };
                    match pooled {
                        Some(conn) => conn.resource(),
                        None => Self::connect(addr).map(Arc::new)?,
                    }
                }
                false => Self::connect(addr).map(Arc::new)?,
            }
        };
""", """        let pooled = if persistent {
            let pool = self.connection_pool.lock().map_err(HttpError::from)?;
            pool.get(addr).map(PoolResource::resource)
        } else {
            None
        };
        let conn = match pooled {
            Some(conn) => conn,
            None => Arc::new(Self::connect(addr)?),
        };
""")]),
]
