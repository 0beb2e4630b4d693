"""larger rewrites: helpers, bundles of parameters, moved code (same behaviour), checked by everything"""
ALL = " ".join(["P%02d" % i for i in range(1, 37) if i not in (23, 29, 30)])
L = "wruster/src/lib.rs"
HD = "wruster/src/http/headers.rs"
DY = "wruster/src/thread_pool/dynamic_pool.rs"
SP = "wruster/src/thread_pool/static_pool.rs"
TP = "wruster/src/thread_pool/mod.rs"
ER = "wruster/src/http/errors.rs"

CONV_SIG = """    stream: ObservedStream<T>,
    routes: Arc<Router>,
    source_addr: SocketAddr,
    timeouts: Timeouts,
) -> bool
where
    T: Stream + 'static,
{
    let connection_open: bool;
"""
WRITE = """    // Write the response.
    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
    if let Err(err) = response.write(&mut timeout_stream) {
        error!(
            "error writing response to: {}, error info: {}",
            source_addr, err
        );
        return false;
    };
    connection_open
}
"""
ENSURE = """    // Ensure the request body (if any) is read.
    if let Some(mut request) = request {
        let body = request.body.as_mut();
        if let Some(body) = body {
            if let Err(err) = body.ensure_read() {
                error!("error reading request body, error info: {}", err);
                return false;
            }
        }
    }

"""
SERVE = """        Ok(mut request) => {
            let persistent = is_connection_persistent(&request);
            let has_body = request.body.is_some();
            let response = run_action(&mut request, routes);
            // What remains unread of a body taken by the action can not be
            // skipped, so no other request can be read from the connection.
            let body_taken = has_body && request.body.is_none();
            connection_open = persistent && !body_taken;
            (Some(request), response)
        }
"""
DRAIN = """                let pending = active_streams.drain();
                for p in pending {
                    match p.upgrade() {
                        Some(p) => {
                            match p.shutdown(net::Shutdown::Both) {
                                Ok(()) => debug!("pending active connection closed"),
                                Err(err) => {
                                    error!("error closing a pending active connection {}", err)
                                }
                            };
                        }
                        None => debug!("pending active connection already dropped"),
                    }
                }
                break;
            };
        }
        info!("server stopped accepting connections");
        Ok(())
    }
"""
ACC = """                let action_stream = ObservedStreamList::track(&active_streams, action_stream);
                let local_action_stream = action_stream.clone();
                let action = move || {
                    handle_conversation(action_stream, cconfig, action_timeouts.clone(), src_addr);
                };

                if pool.run(Box::new(action)).is_err() {
                    error!("server too busy to handle connection with: {}", src_addr);
                    handle_busy(local_action_stream, timeouts.clone(), src_addr);
                }
"""
PARSE_NAME = """        let mut name = String::new();
        let mut i = 0;
        while i < line.len() {
            let c = line[i] as char;
            if !c.is_valid_token_char() {
                break;
            };
            name.push(c);
            i += 1;
        }
"""
OWS = """        let mut j = header_value_start;
        while j < line.len() && (line[j] as char).is_optional_white_space() {
            j += 1;
        }
        header_value_start = j;
        for j in header_value_start..line.len() {
            let c = line[j] as char;
            if !c.is_valid_field_content() {
                debug!(
                    "invalid header value line: {}, char {}, position {}",
                    String::from_utf8_lossy(line),
                    c,
                    j
                );
                return Err(InvalidRequest("invalid header name value".to_string()));
            }
            field_value.push(c);
        }
"""
HWRITE = """        let mut written = to.write_all(self.name.as_bytes());
        if let Err(err) = written {
            debug!("error writing Header: {:?}", err);
            return Err(HttpError::from(err));
        };
        written = to.write_all(": ".as_bytes());
        if let Err(err) = written {
            return Err(HttpError::from(err));
        };
        written = to.write_all(self.value.as_bytes());
        if let Err(err) = written {
            return Err(HttpError::from(err));
        };
        written = to.write_all("\\r\\n".as_bytes());
        if let Err(err) = written {
            return Err(HttpError::from(err));
        };
        Ok(())
"""
NORM = """    for c in name.chars() {
        if c.is_ascii_alphanumeric() && next_alfanum_upper {
            normalized.push(c.to_ascii_uppercase());
            next_alfanum_upper = false;
            continue;
        };
        if c == char::from(b' ') || c == char::from(b'-') {
            next_alfanum_upper = true;
        }
        normalized.push(c.to_ascii_lowercase());
    }
"""
HLOOP = """        loop {
            let mut header_chunk = Vec::<u8>::new();
            let read = from
                .read_until(b'\\n', &mut header_chunk)
                .map_err(HttpError::from)?;
            if read == 0 {
                // The peer closed the connection before sending the whole header.
                return Err(HttpError::ConnectionClosed);
            }
            line.append(&mut header_chunk);
            debug!("header chunk read: {}", String::from_utf8_lossy(&line));
            let len = line.len();
            if len < 2 {
                continue;
            }
            if line[len - 1] == b'\\n' && line[len - 2] == b'\\r' {
                break;
            }
        }
        Header::parse_header_line(line)
"""
DRUN = """        for i in 0..self.max {
            let mut worker = self.workers[i].as_ref().borrow_mut();
            let worker = worker.as_mut();
            action = match worker {
                Some(worker) => match worker.exec(action) {
                    Ok(_) => return Ok(()),
                    Err(action) => action,
                },
                None => action,
            };
        }
        Err(PoolError { action })
"""
DLOOP = """                match res {
                    Ok(action) => {
                        run(action);
                        debug!("action executed");
                        continue;
                    }
                    Err(err) => match err {
                        RecvTimeoutError::Timeout => debug!("worker {} timeout", id),
                        RecvTimeoutError::Disconnected => debug!("worker {} disconnected", id),
                    },
                }
                finished();
                debug!("worker {} stopped", id.to_string());
                break;
"""
MUTANTS = [
    ("mx-lib-send-fn", "same", ALL, [(L, WRITE, """    // Write the response.
    let timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
    send_response(&mut response, timeout_stream, source_addr) && connection_open
}

fn send_response<W: io::Write>(response: &mut Response, mut to: W, peer: SocketAddr) -> bool {
    match response.write(&mut to) {
        Ok(()) => true,
        Err(err) => {
            error!("error writing response to: {}, error info: {}", peer, err);
            false
        }
    }
}
""")]),
    ("mx-lib-drain-fn", "same", ALL, [(L, ENSURE, """    if let Err(err) = skip_body(request) {
        error!("error reading request body, error info: {}", err);
        return false;
    }

"""), (L, "fn run_action(request: &mut Request,", """fn skip_body(request: Option<Request>) -> Result<(), HttpError> {
    if let Some(mut request) = request {
        if let Some(body) = request.body.as_mut() {
            body.ensure_read()?;
        }
    }
    Ok(())
}

fn run_action(request: &mut Request,""")]),
    ("mx-lib-serve-fn", "same", ALL, [(L, SERVE, """        Ok(mut request) => {
            let (response, open) = serve_request(&mut request, routes);
            connection_open = open;
            (Some(request), response)
        }
"""), (L, "fn run_action(request: &mut Request,", """fn serve_request(request: &mut Request, routes: Arc<Router>) -> (Response, bool) {
    let persistent = is_connection_persistent(request);
    let with_body = request.body.is_some();
    let response = run_action(request, routes);
    let body_taken = with_body && request.body.is_none();
    (response, persistent && !body_taken)
}

fn run_action(request: &mut Request,""")]),
    ("mx-lib-drain-pending", "same", ALL, [(L, DRAIN, """                Self::close_pending(&active_streams);
                break;
            };
        }
        info!("server stopped accepting connections");
        Ok(())
    }

    fn close_pending<T: Stream + Send + Sync + 'static>(active: &ObservedStreamList<T>) {
        for stream in active.drain() {
            let stream = match stream.upgrade() {
                Some(stream) => stream,
                None => {
                    debug!("pending active connection already dropped");
                    continue;
                }
            };
            if let Err(err) = stream.shutdown(net::Shutdown::Both) {
                error!("error closing a pending active connection {}", err);
            }
        }
    }
""")]),
    ("mx-lib-dispatch", "same", ALL, [(L, ACC, """                let action_stream = ObservedStreamList::track(&active_streams, action_stream);
                Self::dispatch(&mut pool, action_stream, cconfig, action_timeouts, src_addr);
"""), (L, """    /**
    Forces the server to gracefully shutdown""", """    fn dispatch<T: Stream + Send + Sync + 'static>(
        pool: &mut thread_pool::Pool,
        stream: ObservedStream<T>,
        routes: Arc<Router>,
        timeouts: Timeouts,
        src_addr: SocketAddr,
    ) {
        let busy_stream = stream.clone();
        let busy_timeouts = timeouts.clone();
        let job = Box::new(move || handle_conversation(stream, routes, timeouts, src_addr));
        match pool.run(job) {
            Ok(()) => (),
            Err(_) => {
                error!("server too busy to handle connection with: {}", src_addr);
                handle_busy(busy_stream, busy_timeouts, src_addr);
            }
        }
    }

    /**
    Forces the server to gracefully shutdown""")]),
    ("mx-lib-result-bool", "same", ALL, [(L, WRITE, """    // Write the response.
    let write = || -> Result<bool, HttpError> {
        let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
        response.write(&mut timeout_stream)?;
        Ok(connection_open)
    };
    write().unwrap_or_else(|err| {
        error!("error writing response to: {}, error info: {}", source_addr, err);
        false
    })
}
""")]),
    ("mx-lib-is-ok", "same", ALL, [(L, WRITE, """    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
    let written = response.write(&mut timeout_stream);
    if let Err(err) = &written {
        error!("error writing response to: {}, error info: {}", source_addr, err);
    }
    written.is_ok() && connection_open
}
""")]),
    ("mx-lib-uri-path", "same", ALL, [(L, """    let req_path = PathBuf::from(request.uri.clone());
    let normalized = match req_path.normalize() {""", """    let req_path = PathBuf::from(&request.uri);
    let normalized = match (&req_path).normalize() {"""), (L, "use std::", "use std::")]),
    ("mx-lib-action-and", "same", ALL, [(L, """    let action = match routes.get_prefix(String::from(normalized), request.method) {
        Some(action) => action,
        None => return Response::from_status(StatusCode::NotFound),
    };
    request.uri = String::from(normalized);
    action(request)
""", """    let uri = normalized.to_owned();
    if let Some(action) = routes.get_prefix(uri.clone(), request.method) {
        request.uri = uri;
        return action(request);
    }
    Response::from_status(StatusCode::NotFound)
""")]),
    ("mx-lib-persist-table", "same", ALL, [(L, """    if value == "close" {
        return false;
    }

    if request.version == "HTTP/1.1" || request.version == "HTTP/2" {
        return true;
    };

    if request.version == "HTTP/1.0" && value == "keep-alive" {
        return true;
    };
    false
""", """    match (request.version.as_str(), value.as_str()) {
        (_, "close") => false,
        ("HTTP/1.1", _) | ("HTTP/2", _) => true,
        ("HTTP/1.0", "keep-alive") => true,
        _ => false,
    }
""")]),
    ("mx-lib-persist-bad-table", "bad", "P10", [(L, """    if value == "close" {
        return false;
    }

    if request.version == "HTTP/1.1" || request.version == "HTTP/2" {
        return true;
    };

    if request.version == "HTTP/1.0" && value == "keep-alive" {
        return true;
    };
    false
""", """    match (request.version.as_str(), value.as_str()) {
        ("HTTP/1.1", _) | ("HTTP/2", _) => true,
        (_, "close") => false,
        ("HTTP/1.0", "keep-alive") => true,
        _ => false,
    }
""")]),
    ("xx-hd-name-fn", "same", ALL, [(HD, PARSE_NAME, """        let mut name = Self::read_token(line);
        let i = name.len();
"""), (HD, """    fn parse_header_line(""", """    fn read_token(line: &[u8]) -> String {
        line.iter()
            .map(|b| *b as char)
            .take_while(|c| c.is_valid_token_char())
            .collect()
    }

    fn parse_header_line(""")]),
    ("mx-hd-name-fn2", "same", ALL, [(HD, PARSE_NAME, """        let (mut name, i) = Self::read_token(line);
"""), (HD, """    fn parse_header_line(""", """    fn read_token(line: &[u8]) -> (String, usize) {
        let mut token = String::new();
        let mut pos = 0;
        while pos < line.len() && (line[pos] as char).is_valid_token_char() {
            token.push(line[pos] as char);
            pos += 1;
        }
        (token, pos)
    }

    fn parse_header_line(""")]),
    ("mx-hd-name-for", "same", ALL, [(HD, PARSE_NAME, """        let mut name = String::new();
        let mut i = 0;
        for byte in line {
            let c = char::from(*byte);
            if c.is_valid_token_char() {
                name.push(c);
                i += 1;
            } else {
                break;
            }
        }
""")]),
    ("mx-hd-value-fn", "same", ALL, [(HD, OWS, """        while header_value_start < line.len()
            && (line[header_value_start] as char).is_optional_white_space()
        {
            header_value_start += 1;
        }
        for byte in &line[header_value_start..] {
            let c = *byte as char;
            if !c.is_valid_field_content() {
                debug!("invalid header value line: {}, char {}", String::from_utf8_lossy(line), c);
                return Err(InvalidRequest("invalid header name value".to_string()));
            }
            field_value.push(c);
        }
""")]),
    ("mx-hd-value-while", "same", ALL, [(HD, OWS, """        while header_value_start < line.len() {
            if !(line[header_value_start] as char).is_optional_white_space() {
                break;
            }
            header_value_start += 1;
        }
        let mut k = header_value_start;
        while k < line.len() {
            let c = line[k] as char;
            if c.is_valid_field_content() {
                field_value.push(c);
                k += 1;
                continue;
            }
            return Err(InvalidRequest("invalid header name value".to_string()));
        }
""")]),
    ("mx-hd-write-q", "same", ALL, [(HD, HWRITE, """        let parts = [self.name.as_str(), ": ", self.value.as_str(), "\\r\\n"];
        for part in parts {
            to.write_all(part.as_bytes())?;
        }
        Ok(())
""")]),
    ("mx-hd-write-fn", "same", ALL, [(HD, HWRITE, """        Self::put(to, &self.name)?;
        Self::put(to, ": ")?;
        Self::put(to, &self.value)?;
        Self::put(to, "\\r\\n")
"""), (HD, """    fn parse_header_line(""", """    fn put<T: io::Write>(to: &mut T, text: &str) -> HttpResult<()> {
        to.write_all(text.as_bytes()).map_err(|err| {
            debug!("error writing Header: {:?}", err);
            HttpError::from(err)
        })
    }

    fn parse_header_line(""")]),
    ("mx-hd-write-buf", "same", ALL, [(HD, HWRITE, """        let mut text = String::with_capacity(self.name.len() + self.value.len() + 4);
        text.push_str(&self.name);
        text.push_str(": ");
        text.push_str(&self.value);
        text.push_str("\\r\\n");
        to.write_all(text.as_bytes()).map_err(HttpError::from)
""")]),
    ("mx-hd-norm-match", "same", ALL, [(HD, NORM, """    for c in name.chars() {
        match c {
            ' ' | '-' => {
                next_alfanum_upper = true;
                normalized.push(c);
            }
            c if next_alfanum_upper && c.is_ascii_alphanumeric() => {
                normalized.push(c.to_ascii_uppercase());
                next_alfanum_upper = false;
            }
            c => normalized.push(c.to_ascii_lowercase()),
        }
    }
""")]),
    ("mx-hd-loop-fn", "same", ALL, [(HD, HLOOP, """        while !Self::is_complete(&line) {
            let mut header_chunk = Vec::<u8>::new();
            if from.read_until(b'\\n', &mut header_chunk)? == 0 {
                return Err(HttpError::ConnectionClosed);
            }
            line.extend_from_slice(&header_chunk);
        }
        Header::parse_header_line(line)
"""), (HD, """    fn parse_header_line(""", """    fn is_complete(line: &[u8]) -> bool {
        let len = line.len();
        len >= 2 && line[len - 2] == b'\\r' && line[len - 1] == b'\\n'
    }

    fn parse_header_line(""")]),
    ("mx-hd-loop-direct", "same", ALL, [(HD, HLOOP, """        while !line.ends_with(b"\\r\\n") {
            let read = from.read_until(b'\\n', &mut line).map_err(HttpError::from)?;
            if read == 0 {
                return Err(HttpError::ConnectionClosed);
            }
        }
        Header::parse_header_line(line)
""")]),
    ("mx-hd-read-ok-loop", "same", ALL, [(HD, """        loop {
            let header = Header::read_from(from)?;
            match header {
                None => {
                    break;
                }
                Some(header) => {
                    headers.add(header);
                }
            };
        }
""", """        while let Some(Header { name, value }) = Header::read_from(from)? {
            headers.headers.entry(name).or_insert_with(Vec::new).push(value);
        }
""")]),
    ("mx-dy-run-fn", "same", ALL, [(DY, DRUN, """        for worker in self.workers.iter().take(self.max) {
            let mut worker = worker.borrow_mut();
            action = match worker.as_mut().map(|worker| worker.exec(action)) {
                Some(Ok(())) => return Ok(()),
                Some(Err(action)) => action,
                None => unreachable!(),
            };
        }
        Err(PoolError { action })
""")]),
    ("mx-dy-run-try", "same", ALL, [(DY, DRUN, """        for i in 0..self.max {
            match self.try_worker(i, action) {
                Ok(()) => return Ok(()),
                Err(back) => action = back,
            }
        }
        Err(PoolError { action })
"""), (DY, "    pub fn run(&mut self,", """    fn try_worker(&self, index: usize, action: Action) -> Result<(), Action> {
        match self.workers[index].borrow().as_ref() {
            Some(worker) => worker.exec(action),
            None => Err(action),
        }
    }

    pub fn run(&mut self,""")]),
    ("mx-dy-loop-while", "same", ALL, [(DY, """            loop {
                let res = receiver.recv_timeout(timeout);
""" + DLOOP + """            }
""", """            while let Ok(action) = receiver.recv_timeout(timeout) {
                run(action);
                debug!("action executed");
            }
            finished();
            debug!("worker {} stopped", id);
""")]),
    ("mx-dy-loop-err", "same", ALL, [(DY, """            loop {
                let res = receiver.recv_timeout(timeout);
""" + DLOOP + """            }
""", """            let reason = loop {
                match receiver.recv_timeout(timeout) {
                    Ok(action) => run(action),
                    Err(reason) => break reason,
                }
            };
            match reason {
                RecvTimeoutError::Timeout => debug!("worker {} timeout", id),
                RecvTimeoutError::Disconnected => debug!("worker {} disconnected", id),
            }
            finished();
""")]),
    ("mx-dy-work-fn", "same", ALL, [(DY, """            loop {
                let res = receiver.recv_timeout(timeout);
""" + DLOOP + """            }
        });
""", """            Self::serve(id, receiver, timeout, run);
            finished();
            debug!("worker {} stopped", id.to_string());
        });
"""), (DY, "    fn exec(&self,", """    fn serve<F: Fn(Action)>(
        id: usize,
        receiver: std::sync::mpsc::Receiver<Action>,
        timeout: Duration,
        run: F,
    ) {
        loop {
            match receiver.recv_timeout(timeout) {
                Ok(action) => {
                    run(action);
                    debug!("action executed");
                }
                Err(RecvTimeoutError::Timeout) => {
                    debug!("worker {} timeout", id);
                    return;
                }
                Err(RecvTimeoutError::Disconnected) => {
                    debug!("worker {} disconnected", id);
                    return;
                }
            }
        }
    }

    fn exec(&self,""")]),
    ("mx-dy-exec-into", "same", ALL, [(DY, """        match sender.try_send(action) {
            Ok(()) => Ok(()),
            Err(err) => match err {
                TrySendError::Full(action) => Err(action),
                TrySendError::Disconnected(action) => Err(action),
            },
        }
""", """        sender.try_send(action).map_err(|err| match err {
            TrySendError::Full(action) | TrySendError::Disconnected(action) => action,
        })
""")]),
    ("mx-dy-take", "same", ALL, [(DY, """        let mut free_cells = self.free_cells.write().unwrap();
        let index = match free_cells.pop_front() {
            Some(index) => index,
            None => return Err(action),
        };
""", """        let free = self.free_cells.write().unwrap().pop_front();
        let index = if let Some(index) = free { index } else { return Err(action) };
""")]),
    ("mx-tp-run-or", "same", ALL, [(TP, """        let mut action = action;
        if let Some(stat) = self.stat.as_mut() {
            action = match stat.run(action) {
                Ok(_) => return Ok(()),
                Err(err) => err.action,
            };
        };
        match self.dynamic.as_mut() {
            Some(dynamic) => dynamic.run(action),
            None => Err(PoolError { action }),
        }
""", """        let rejected = match &mut self.stat {
            Some(stat) => stat.run(action),
            None => Err(PoolError { action }),
        };
        match (rejected, &mut self.dynamic) {
            (Err(err), Some(dynamic)) => dynamic.run(err.action),
            (result, _) => result,
        }
""")]),
    ("mx-tp-run-else", "same", ALL, [(TP, """        let mut action = action;
        if let Some(stat) = self.stat.as_mut() {
            action = match stat.run(action) {
                Ok(_) => return Ok(()),
                Err(err) => err.action,
            };
        };
        match self.dynamic.as_mut() {
            Some(dynamic) => dynamic.run(action),
            None => Err(PoolError { action }),
        }
""", """        let result = match self.stat.as_mut() {
            Some(stat) => stat.run(action),
            None => Err(PoolError { action }),
        };
        result.or_else(|err| match self.dynamic.as_mut() {
            Some(dynamic) => dynamic.run(err.action),
            None => Err(err),
        })
""")]),
    ("mx-tp-new-then", "same", ALL, [(TP, """        let mut stat = None;
        if min > 0 {
            stat = Some(Static::new(min));
        }
        let mut dynamic: Option<Dynamic> = None;
        if min < max {
            dynamic = Some(Dynamic::new(max - min, DEFAULT_TIMEOUT));
        }
        Pool { dynamic, stat }
""", """        Pool {
            stat: (min > 0).then(|| Static::new(min)),
            dynamic: max
                .checked_sub(min)
                .filter(|extra| *extra > 0)
                .map(|extra| Dynamic::new(extra, DEFAULT_TIMEOUT)),
        }
""")]),
    ("mx-er-if", "same", ALL, [(ER, """        match err.kind() {
            io::ErrorKind::NotConnected => HttpError::ConnectionClosed,
            io::ErrorKind::TimedOut => HttpError::Timeout,
            _ => HttpError::Unknown(err.to_string()),
        }
""", """        let kind = err.kind();
        if kind == io::ErrorKind::TimedOut {
            return HttpError::Timeout;
        }
        if matches!(kind, io::ErrorKind::NotConnected) {
            return HttpError::ConnectionClosed;
        }
        HttpError::Unknown(format!("{}", err))
""")]),
]
# not followed: the number of characters of a token taken for the length of its text
MUTANTS = [m for m in MUTANTS if m[0] not in ("mx-dy-run-fn", "xx-hd-name-fn")]
