"""Self test entries: the server (src/lib.rs)."""
L = "wruster/src/lib.rs"
LIB = "P09 P10 P11 P12 P13 P14 P15 P25 P31"
BIND = """        let listener = match net::TcpListener::bind(addr) {
            Ok(listener) => listener,
            Err(err) => return Err(Box::new(err)),
        };
"""
UNITS_A = """        let execunits = match thread::available_parallelism() {"""
UNITS = UNITS_A + """
            Ok(units) => {
                info!("system reported {} available execution units", units);
                usize::from(units)
            }
            Err(err) => {
                let default_value = 2;
                error!(
                    "error getting available run units: {}, using default value: {}",
                    err.to_string(),
                    default_value
                );
                default_value
            }
        };
"""
WAIT = """            if let Err(err) = epoller.wait(&mut events, None) {
                // A signal, even just resuming the process, interrupts the wait.
                if err.kind() != ErrorKind::Interrupted {
                    return Err(Box::new(err));
                }
            }
"""
KEY = """                if evt.key != 1 {
                    continue;
                }
"""
REARM = """                // Rearm the listener before accepting, so no failure in a
                // single connection prevents to accept the next ones.
                epoller.modify(&listener, Event::readable(1))?;
"""
ACCEPT = """                let (stream, src_addr) = match listener.accept() {
                    Err(err) => {
                        error!("error accepting connection: {}", err.to_string());
                        continue;
                    }
                    Ok(connection) => connection,
                };
"""
BUILD = """                let stream = stream_builder(stream);
                let action_stream = match stream {
                    Ok(stream) => stream,
                    Err(err) => {
                        error!("error cloning stream: {}", err.to_string());
                        continue;
                    }
                };
"""
TRACK = """                let action_stream = ObservedStreamList::track(&active_streams, action_stream);
                let local_action_stream = action_stream.clone();
"""
RUN = """                if pool.run(Box::new(action)).is_err() {
                    error!("server too busy to handle connection with: {}", src_addr);
                    handle_busy(local_action_stream, timeouts.clone(), src_addr);
                }
            }
"""
STOP = """            if stop.as_ref().load(Ordering::SeqCst) {
                let pending = active_streams.drain();
                for p in pending {
                    match p.upgrade() {
                        Some(p) => {
                            match p.shutdown(net::Shutdown::Both) {
                                Ok(()) => debug!("pending active connection closed"),
                                Err(err) => {
                                    error!("error closing a pending active connection {}", err)
                                }
                            };
                        }
                        None => debug!("pending active connection already dropped"),
                    }
                }
                break;
            };
        }
        info!("server stopped accepting connections");
"""
SHUT_H = """        let handle = match self.handle {
            None => {
                let err = Box::new(Error::new(ErrorKind::Other, "server not started"));
                return Err(err);
            }
            Some(handle) => handle,
        };
"""
SHUT_S = """        self.stop.as_ref().store(true, Ordering::SeqCst);
        self.poller.unwrap().notify()?;
"""
SHUT_J = """        match handle.join() {
            Ok(result) => match result {
                Ok(()) => Ok(()),
                Err(error) => {
                    let err = Box::new(Error::new(ErrorKind::Other, error.to_string()));
                    Err(err)
                }
            },
            Err(err) => {
                error!("error waiting for stopping accepting connections {:?}", err);
                let err = Box::new(Error::new(
                    ErrorKind::Other,
                    "error waiting for accepting connections",
                ));
                Err(err)
            }
        }
"""
WAITF = """        if self.handle.is_none() {
            let err = Box::new(Error::new(ErrorKind::Other, "server not started"));
            return Err(err);
        }
        let handle = self.handle.unwrap();
        handle.join().unwrap()?;
        Ok(())
"""
CONV = """    let mut connection_open = true;
    while connection_open {
        let handle_stream = stream.clone();
        connection_open = handle_connection(
            handle_stream,
            Arc::clone(&routes),
            source_addr,
            timeouts.clone(),
        );
        if let Err(err) = stream.flush() {
            error!("error flushing to: {}, {}", source_addr, err);
            return;
        }
        debug!("connection flushed");
    }
"""
ENSURE = """    if let Some(mut request) = request {
        let body = request.body.as_mut();
        if let Some(body) = body {
            if let Err(err) = body.ensure_read() {
                error!("error reading request body, error info: {}", err);
                return false;
            }
        }
    }
"""
RESP = """    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
    if let Err(err) = response.write(&mut timeout_stream) {
        error!(
            "error writing response to: {}, error info: {}",
            source_addr, err
        );
        return false;
    };
    connection_open
}
"""
BUSY = """    if let Err(err) = resp.write(&mut timeout_stream) {
        error!("sending too busy to {}: {}", src_addr, err.to_string())
    }
    let s = &*shutdown_stream;
    if let Err(err) = s.shutdown(net::Shutdown::Both) {
        error!("error closing connection with: {}, {}", src_addr, err);
    }
"""
READ_ERR = """        Err(err) => match err {
            HttpError::InvalidRequest(err) => {
                error!("error reading request, error info: {}", err);
                connection_open = false;
                let response = Response::from_status(StatusCode::BadRequest);
                (None, response)
            }
            err => {
                debug!("error reading request {:?}", err);
                return false;
            }
        },
    };
"""
PERS = """    let value = match request.headers.get("Connection") {
        None => "".to_string(),
        Some(values) => values[0].to_lowercase(),
    };
    if value == "close" {
        return false;
    }

    if request.version == "HTTP/1.1" || request.version == "HTTP/2" {
        return true;
    };

    if request.version == "HTTP/1.0" && value == "keep-alive" {
        return true;
    };
    false
"""
ACT_N = """    let normalized = match req_path.normalize() {
        Ok(path) => path,
        Err(err) => {
            let p = req_path.to_str().unwrap_or("unable to get path");
            error!("error: parsing path {}, error info: {}", p, err);
            return Response::from_status(StatusCode::InternalServerError);
        }
    };

    let normalized = match normalized.to_str() {
        None => return Response::from_status(StatusCode::InternalServerError),
        Some(path) => path,
    };
    let action = match routes.get_prefix(String::from(normalized), request.method) {
        Some(action) => action,
        None => return Response::from_status(StatusCode::NotFound),
    };
    request.uri = String::from(normalized);
    action(request)
"""
FROM_T = """    pub fn from_timeouts(timeouts: Timeouts) -> Self {
        let stop = Arc::new(AtomicBool::new(false));
        let handle = None;
        let poller = None;
        let addr = None;
        Server {
            stop,
            addr,
            handle,
            poller,
            timeouts,
        }
    }
"""
NEW = """        let stop = Arc::new(AtomicBool::new(false));
        let handle = None;
        let poller = None;
        let addr = None;
        let timeouts = Timeouts {
            read_request_timeout: DEFAULT_READ_REQUEST_TIMEOUT,
            write_response_timeout: DEFAULT_WRITE_RESPONSE_TIMEOUT,
        };
        Server {
            stop,
            addr,
            handle,
            poller,
            timeouts,
        }
"""
LOOP = "                for p in pending {\n                    match p.upgrade() {\n"

MUTANTS = [
    ("wl-same-bind", "same", LIB, [(L, BIND, "        let listener = TcpListener::bind(addr)?;\n")]),
    ("wl-same-units", "same", LIB, [(L, UNITS, "        let execunits = thread::available_parallelism().map(usize::from).unwrap_or(2);\n")]),
    ("wl-same-units-fn", "same", LIB, [(L, UNITS, "        let execunits = execution_units();\n"), (L, "fn handle_busy<T>", """fn execution_units() -> usize {
    thread::available_parallelism().map_or(2, |units| units.get())
}

fn handle_busy<T>""")]),
    ("wl-same-while-stop", "same", LIB, [(L, "        loop {\n            debug!(\"tracked", "        while !stop.load(Ordering::SeqCst) {\n            debug!(\"tracked"),
                                        (L, STOP, """        }
        for p in active_streams.drain() {
            if let Some(p) = p.upgrade() {
                if let Err(err) = p.shutdown(net::Shutdown::Both) {
                    error!("error closing a pending active connection {}", err)
                }
            }
        }
        info!("server stopped accepting connections");
""")]),
    ("wl-same-key", "same", LIB, [(L, "            for evt in &events {\n" + KEY, "            for _ in events.iter().filter(|evt| evt.key == 1) {\n")]),
    ("wl-same-any", "same", LIB, [(L, "            for evt in &events {\n" + KEY, "            if events.iter().any(|evt| evt.key == 1) {\n"), (L, """                    Err(err) => {
                        error!("error accepting connection: {}", err.to_string());
                        continue;
                    }
                    Ok(connection) => connection,
                };
""", """                    Err(err) => {
                        error!("error accepting connection: {}", err.to_string());
                        if stop.load(Ordering::SeqCst) {
                            close_pending(&active_streams);
                            break;
                        }
                        continue;
                    }
                    Ok(connection) => connection,
                };
"""), (L, """                        error!("error cloning stream: {}", err.to_string());
                        continue;
""", """                        error!("error cloning stream: {}", err.to_string());
                        if stop.load(Ordering::SeqCst) {
                            close_pending(&active_streams);
                            break;
                        }
                        continue;
"""), (L, STOP, """            if stop.load(Ordering::SeqCst) {
                close_pending(&active_streams);
                break;
            };
        }
        info!("server stopped accepting connections");
"""), (L, "fn handle_busy<T>", """fn close_pending<T: Stream>(active: &ObservedStreamList<T>) {
    for p in active.drain() {
        match p.upgrade() {
            Some(p) => {
                let _ = p.shutdown(net::Shutdown::Both);
            }
            None => debug!("already dropped"),
        }
    }
}

fn handle_busy<T>""")]),
    ("wl-same-close-fn", "same", LIB, [(L, STOP, """            if stop.load(Ordering::SeqCst) {
                close_pending(active_streams.drain());
                break;
            };
        }
        info!("server stopped accepting connections");
"""), (L, "fn handle_busy<T>", """fn close_pending<T: Stream>(pending: Vec<std::sync::Weak<streams::observable::ObservableStream<T>>>) {
    pending
        .iter()
        .filter_map(|p| p.upgrade())
        .for_each(|p| {
            if let Err(err) = p.shutdown(net::Shutdown::Both) {
                error!("error closing a pending active connection {}", err)
            }
        });
}

fn handle_busy<T>""")]),
    ("wl-same-flatmap", "same", LIB, [(L, STOP, """            if stop.load(Ordering::SeqCst) {
                for p in active_streams.drain().iter().flat_map(|p| p.upgrade()) {
                    let _ = p.shutdown(net::Shutdown::Both);
                }
                break;
            };
        }
""")]),
    ("wl-same-drain-while", "same", LIB, [(L, STOP, """            if stop.load(Ordering::SeqCst) {
                let mut pending = active_streams.drain();
                while let Some(p) = pending.pop() {
                    let p = match p.upgrade() {
                        Some(p) => p,
                        None => continue,
                    };
                    let _ = p.shutdown(net::Shutdown::Both);
                }
                return Ok(());
            };
        }
""")]),
    ("wl-same-rearm-match", "same", LIB, [(L, REARM, """                if let Err(err) = epoller.modify(&listener, Event::readable(1)) {
                    error!("error waiting for connections: {}", err);
                    return Err(Box::new(err));
                }
""")]),
    ("wl-same-key-const", "same", LIB, [(L, KEY, "                if evt.key != LISTENER {\n                    continue;\n                }\n"), (L, REARM, "                epoller.modify(&listener, Event::readable(LISTENER))?;\n"),
                                       (L, "        poller.add(&listener, Event::readable(1))?;", "        poller.add(&listener, Event::readable(LISTENER))?;"),
                                       (L, "/// Defines the result type returned", "const LISTENER: usize = 1;\n\n/// Defines the result type returned")]),
    ("wl-same-accept-fn", "same", LIB, [(L, ACCEPT, """                let (stream, src_addr) = match accept(&listener) {
                    Some(connection) => connection,
                    None => continue,
                };
"""), (L, "fn handle_busy<T>", """fn accept(listener: &TcpListener) -> Option<(TcpStream, SocketAddr)> {
    listener
        .accept()
        .map_err(|err| error!("error accepting connection: {}", err))
        .ok()
}

fn handle_busy<T>""")]),
    ("wl-same-accept-serve", "same", LIB, [(L, ACCEPT + """                info!("accepting connection from {}", src_addr);
                let cconfig = Arc::clone(&routes);
                let action_timeouts = timeouts.clone();

""" + BUILD + TRACK, """                let connection = listener
                    .accept()
                    .and_then(|(stream, src_addr)| Ok((stream_builder(stream)?, src_addr)));
                let (action_stream, src_addr) = match connection {
                    Ok(connection) => connection,
                    Err(err) => {
                        error!("error accepting connection: {}", err);
                        continue;
                    }
                };
                let cconfig = Arc::clone(&routes);
                let action_timeouts = timeouts.clone();
""" + TRACK)]),
    ("wl-same-wait-match", "same", LIB, [(L, WAIT, """            match epoller.wait(&mut events, None) {
                Ok(_) => {}
                Err(err) if err.kind() == ErrorKind::Interrupted => {}
                Err(err) => return Err(Box::new(err)),
            }
""")]),
    ("wl-same-events-new", "same", LIB, [(L, "        let mut events = Vec::new();\n", ""), (L, "            events.clear();\n", "            let mut events = Vec::with_capacity(8);\n")]),
    ("wl-same-run-match", "same", LIB, [(L, RUN, """                match pool.run(Box::new(action)) {
                    Ok(()) => continue,
                    Err(_) => handle_busy(local_action_stream, timeouts.clone(), src_addr),
                }
            }
""")]),
    ("wl-same-shut-ok-or", "same", LIB, [(L, SHUT_H, """        let not_started = || Error::new(ErrorKind::Other, "server not started");
        let handle = self.handle.ok_or_else(not_started)?;
""")]),
    ("wl-same-shut-join", "same", LIB, [(L, SHUT_J, """        match handle.join() {
            Ok(Ok(())) => Ok(()),
            Ok(Err(error)) => Err(Box::new(Error::new(ErrorKind::Other, error.to_string()))),
            Err(_) => Err(Box::new(Error::new(
                ErrorKind::Other,
                "error waiting for accepting connections",
            ))),
        }
""")]),
    ("wl-same-shut-poller", "same", LIB, [(L, SHUT_S, """        self.stop.store(true, Ordering::SeqCst);
        if let Some(poller) = self.poller {
            poller.notify()?;
        }
""")]),
    ("wl-same-shut-letelse", "same", LIB, [(L, SHUT_H + SHUT_S, """        let (handle, poller) = match (self.handle, self.poller) {
            (Some(handle), Some(poller)) => (handle, poller),
            _ => return Err(Box::new(Error::new(ErrorKind::Other, "server not started"))),
        };
        self.stop.swap(true, Ordering::SeqCst);
        poller.notify()?;
""")]),
    ("wl-same-wait", "same", LIB, [(L, WAITF, """        match self.handle {
            None => Err(Box::new(Error::new(ErrorKind::Other, "server not started"))),
            Some(handle) => {
                handle.join().unwrap()?;
                Ok(())
            }
        }
""")]),
    ("wl-same-conv-loop", "same", LIB, [(L, CONV, """    loop {
        let open = handle_connection(
            stream.clone(),
            Arc::clone(&routes),
            source_addr,
            timeouts.clone(),
        );
        if let Err(err) = stream.flush() {
            error!("error flushing to: {}, {}", source_addr, err);
            return;
        }
        if !open {
            break;
        }
    }
""")]),
    ("wl-same-conv-while", "same", LIB, [(L, CONV, """    while handle_connection(
        stream.clone(),
        routes.clone(),
        source_addr,
        timeouts.clone(),
    ) {
        if stream.flush().is_err() {
            return;
        }
    }
    if stream.flush().is_err() {
        return;
    }
""")]),
    ("wl-same-ensure-fn", "same", LIB, [(L, ENSURE, """    if let Err(err) = skip_body(request) {
        error!("error reading request body, error info: {}", err);
        return false;
    }
"""), (L, "fn run_action(", """fn skip_body(request: Option<Request>) -> Result<(), HttpError> {
    match request.and_then(|request| request.body) {
        Some(mut body) => body.ensure_read(),
        None => Ok(()),
    }
}

fn run_action(""")]),
    ("wl-same-ensure-then", "same", LIB, [(L, ENSURE, """    if let Some(mut body) = request.and_then(|r| r.body) {
        if body.ensure_read().is_err() {
            return false;
        }
    }
""")]),
    ("wl-same-resp-fn", "same", LIB, [(L, RESP, """    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
    write_response(&mut response, &mut timeout_stream, source_addr) && connection_open
}

fn write_response<W: Write>(response: &mut Response, to: &mut W, source_addr: SocketAddr) -> bool {
    match response.write(to) {
        Ok(_) => true,
        Err(err) => {
            error!("error writing response to: {}, error info: {}", source_addr, err);
            false
        }
    }
}
""")]),
    ("wl-same-resp-ret", "same", LIB, [(L, RESP, """    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
    response.write(&mut timeout_stream).is_ok() && connection_open
}
""")]),
    ("wl-same-read-err", "same", LIB, [(L, READ_ERR, """        Err(HttpError::InvalidRequest(err)) => {
            error!("error reading request, error info: {}", err);
            connection_open = false;
            (None, Response::from_status(StatusCode::BadRequest))
        }
        Err(err) => {
            debug!("error reading request {:?}", err);
            return false;
        }
    };
""")]),
    ("wl-same-busy", "same", LIB, [(L, BUSY, """    match resp.write(&mut timeout_stream) {
        Ok(_) => debug!("sent too busy to {}", src_addr),
        Err(err) => error!("sending too busy to {}: {}", src_addr, err),
    }
    let _ = shutdown_stream.shutdown(net::Shutdown::Both);
""")]),
    ("wl-same-pers", "same", LIB, [(L, PERS, """    let value = request
        .headers
        .get("Connection")
        .map(|values| values[0].to_lowercase())
        .unwrap_or_default();
    match (value.as_str(), request.version.as_str()) {
        ("close", _) => false,
        (_, "HTTP/1.1") | (_, "HTTP/2") => true,
        ("keep-alive", "HTTP/1.0") => true,
        _ => false,
    }
""")]),
    ("wl-same-pers-ascii", "same", LIB, [(L, PERS, """    let values = request.headers.get("Connection");
    let is = |token: &str| match values {
        Some(values) => values[0].eq_ignore_ascii_case(token),
        None => false,
    };
    match request.version.as_str() {
        "HTTP/1.1" | "HTTP/2" => !is("close"),
        "HTTP/1.0" => is("keep-alive"),
        _ => false,
    }
""")]),
    ("wl-same-action", "same", LIB, [(L, ACT_N, """    let normalized = req_path
        .normalize()
        .ok()
        .and_then(|path| path.to_str().map(String::from));
    let normalized = match normalized {
        Some(path) => path,
        None => return Response::from_status(StatusCode::InternalServerError),
    };
    match routes.get_prefix(normalized.clone(), request.method) {
        Some(action) => {
            request.uri = normalized;
            action(request)
        }
        None => Response::from_status(StatusCode::NotFound),
    }
""")]),
    ("wl-same-new", "same", LIB, [(L, NEW, """        Self::from_timeouts(Timeouts {
            read_request_timeout: DEFAULT_READ_REQUEST_TIMEOUT,
            write_response_timeout: DEFAULT_WRITE_RESPONSE_TIMEOUT,
        })
""")]),
    ("wl-same-from", "same", LIB, [(L, FROM_T, """    pub fn from_timeouts(timeouts: Timeouts) -> Self {
        let mut server = Self::new();
        server.timeouts = timeouts;
        server
    }
""")]),
    ("wl-same-start-if", "same", LIB, [(L, "        if self.poller.is_some() {\n", "        if self.handle.is_some() || self.poller.is_some() {\n")]),
    ("wl-same-order", "same", LIB, [(L, """        self.poller = Some(poller);
        info!""", "        info!"), (L, """        self.handle = Some(handle);
        self.addr""", """        self.poller = Some(poller);
        self.handle = Some(handle);
        self.addr""")]),

    ("wl-rearm-late", "bad", "P12", [(L, REARM, ""), (L, "                info!(\"accepting connection from {}\", src_addr);\n", "                epoller.modify(&listener, Event::readable(1))?;\n                info!(\"accepting connection from {}\", src_addr);\n")]),
    ("wl-rearm-end", "bad", "P12", [(L, REARM, ""), (L, RUN, RUN[:-14] + "                epoller.modify(&listener, Event::readable(1))?;\n            }\n")]),
    ("wl-rearm-ignored", "bad", "P12", [(L, REARM, "                if epoller.modify(&listener, Event::readable(2)).is_err() {\n                    continue;\n                }\n")]),
    ("wl-accept-q", "bad", "P12", [(L, ACCEPT, "                let (stream, src_addr) = listener.accept()?;\n")]),
    ("wl-build-break", "bad", "P12 P14", [(L, """                        error!("error cloning stream: {}", err.to_string());
                        continue;""", """                        error!("error cloning stream: {}", err.to_string());
                        return Err(Box::new(err));""")]),
    ("wl-accept-abort", "bad", "P12", [(L, """                        error!("error accepting connection: {}", err.to_string());
                        continue;""", """                        error!("error accepting connection: {}", err.to_string());
                        if err.kind() == ErrorKind::ConnectionAborted {
                            return Err(Box::new(err));
                        }
                        continue;""")]),
    ("wl-stop-empty", "bad", "P14", [(L, "            if stop.as_ref().load(Ordering::SeqCst) {", "            if stop.as_ref().load(Ordering::SeqCst) && events.is_empty() {")]),
    ("wl-stop-active", "bad", "P14", [(L, "            if stop.as_ref().load(Ordering::SeqCst) {", "            if stop.as_ref().load(Ordering::SeqCst) && active_streams.len() > 0 {")]),
    ("wl-notify-first", "bad", "P14", [(L, SHUT_S, "        self.poller.unwrap().notify()?;\n        self.stop.as_ref().store(true, Ordering::SeqCst);\n")]),
    ("wl-no-notify", "bad", "P14", [(L, "        self.poller.unwrap().notify()?;\n", "")]),
    ("wl-no-join", "bad", "P14", [(L, SHUT_J, "        drop(handle);\n        Ok(())\n")]),
    ("wl-join-some", "bad", "P14", [(L, SHUT_J, "        if handle.is_finished() {\n            let _ = handle.join();\n        }\n        Ok(())\n")]),
    ("wl-drain-write", "bad", "P14", [(L, "match p.shutdown(net::Shutdown::Both) {", "match p.shutdown(net::Shutdown::Write) {")]),
    ("wl-drain-first", "bad", "P14", [(L, "                for p in pending {\n", "                for p in pending.into_iter().take(100) {\n")]),
    ("wl-drain-skip", "bad", "P14", [(L, "                for p in pending {\n", "                for p in pending.into_iter().skip(1) {\n")]),
    ("wl-drain-err", "bad", "P14", [(L, """                                    error!("error closing a pending active connection {}", err)
""", """                                    error!("error closing a pending active connection {}", err);
                                    return Err(Box::new(err));
""")]),
    ("wl-drain-none", "bad", "P14", [(L, """                        None => debug!("pending active connection already dropped"),
""", """                        None => break,
""")]),
    ("wl-interrupted", "bad", "P12 P14", [(L, WAIT, "            epoller.wait(&mut events, None).map_err(Box::new)?;\n")]),
    ("wl-busy-silent", "bad", "P13", [(L, "                    handle_busy(local_action_stream, timeouts.clone(), src_addr);\n", "                    let _ = local_action_stream.shutdown(net::Shutdown::Both);\n")]),
    ("wl-busy-open", "bad", "P13", [(L, BUSY, """    if let Err(err) = resp.write(&mut timeout_stream) {
        error!("sending too busy to {}: {}", src_addr, err.to_string());
        return;
    }
    let _ = shutdown_stream.shutdown(net::Shutdown::Both);
""")]),
    ("wl-busy-500", "bad", "P13", [(L, "Response::from_status(StatusCode::ServiceUnavailable)", "Response::from_status(StatusCode::InternalServerError)")]),
    ("wl-busy-shut-read", "bad", "P13", [(L, "    let s = &*shutdown_stream;\n    if let Err(err) = s.shutdown(net::Shutdown::Both)", "    let s = &*shutdown_stream;\n    if let Err(err) = s.shutdown(net::Shutdown::Read)")]),
    ("wl-swap-timeouts", "bad", "P11", [(L, "    let timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);", "    let timeout_stream = TimeoutStream::from(stream, write_timeout, read_timeout);")]),
    ("wl-resp-bare", "bad", "P11", [(L, "    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);\n", "    let mut timeout_stream = resp_stream;\n")]),
    ("wl-resp-read-none", "bad", "P11", [(L, "    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);", "    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, None);")]),
    ("wl-from-default", "bad", "P11", [(L, FROM_T, """    pub fn from_timeouts(timeouts: Timeouts) -> Self {
        let mut server = Self::new();
        server.timeouts.read_request_timeout = timeouts.read_request_timeout;
        server
    }
""")]),
    ("wl-400-open", "bad", "P10", [(L, """                connection_open = false;
                let response""", """                connection_open = true;
                let response""")]),
    ("wl-400-silent", "bad", "P09", [(L, """                connection_open = false;
                let response = Response::from_status(StatusCode::BadRequest);
                (None, response)
""", """                return false;
""")]),
    ("wl-reread", "bad", "P09", [(L, ENSURE, "    drop(request);\n")]),
    ("wl-taken-open", "bad", "P09", [(L, "persistent && !body_taken", "persistent || body_taken")]),
    ("wl-ensure-persist", "bad", "P09", [(L, "                error!(\"error reading request body, error info: {}\", err);\n                return false;\n", "                error!(\"error reading request body, error info: {}\", err);\n")]),
    ("wl-write-open", "bad", "P10", [(L, """            source_addr, err
        );
        return false;
    };
    connection_open
""", """            source_addr, err
        );
    };
    connection_open
""")]),
    ("wl-flush-open", "bad", "P10 P09 P11 P15", [(L, """            error!("error flushing to: {}, {}", source_addr, err);
            return;
""", """            error!("error flushing to: {}, {}", source_addr, err);
""")]),
    ("wl-rearm-continue", "bad", "P12", [(L, REARM, """                if let Err(err) = epoller.modify(&listener, Event::readable(1)) {
                    error!("error waiting for connections: {}", err);
                    continue;
                }
""")]),
    ("wl-rearm-writable", "bad", "P12", [(L, REARM, "                epoller.modify(&listener, Event::writable(1))?;\n")]),
    ("wl-add-none", "bad", "P12", [(L, "        poller.add(&listener, Event::readable(1))?;", "        poller.add(&listener, Event::none(1))?;")]),
    ("wl-key-two", "bad", "P12", [(L, KEY, KEY.replace("1", "2"))]),
    ("wl-key-skip", "bad", "P12", [(L, KEY, KEY + """                if !evt.readable {
                    continue;
                }
                if active_streams.len() > 1000 {
                    continue;
                }
""")]),
    ("wl-same-key-match", "same", LIB, [(L, KEY, """                match evt.key {
                    1 => {}
                    key => {
                        debug!("unexpected event {}", key);
                        continue;
                    }
                }
""")]),
    ("wl-same-event-lit", "same", LIB, [(L, REARM, """                epoller.modify(
                    &listener,
                    Event {
                        key: 1,
                        readable: true,
                        writable: false,
                    },
                )?;
""")]),
    ("wl-same-drain-events", "same", LIB, [(L, "            for evt in &events {\n", "            for evt in events.drain(..) {\n")]),
]
