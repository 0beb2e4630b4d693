L = "wruster/src/lib.rs"
SP = "wruster/src/thread_pool/static_pool.rs"
DP = "wruster/src/thread_pool/dynamic_pool.rs"
TP = "wruster/src/thread_pool/mod.rs"
HM = "wruster/src/http/mod.rs"
HH = "wruster/src/http/headers.rs"
TRAIL = """    if request.version == "HTTP/1.1" || request.version == "HTTP/2" {
        return true;
    };

    if request.version == "HTTP/1.0" && value == "keep-alive" {
        return true;
    };
    false"""
MUTANTS = [
    # ---- persistence (P10)
    ("persist-call-method", "same", "P10", [(L, 'let persistent = is_connection_persistent(&request);', 'let persistent = request.is_connection_persistent();')]),
    ("persist-no-lowercase", "bad", "P10", [(L, 'Some(values) => values[0].to_lowercase(),', 'Some(values) => values[0].to_string(),')]),
    ("persist-match", "same", "P10", [(L, TRAIL, """    match request.version.as_str() {
        "HTTP/1.1" | "HTTP/2" => true,
        "HTTP/1.0" => value == "keep-alive",
        _ => false,
    }""")]),
    ("persist-expr", "same", "P10", [(L, """    if value == "close" {
        return false;
    }

""" + TRAIL, """    let persistent_version = request.version == "HTTP/1.1" || request.version == "HTTP/2";
    let keep = request.version == "HTTP/1.0" && value.eq_ignore_ascii_case("keep-alive");
    value != "close" && (persistent_version || keep)""")]),
    ("persist-after-action", "bad", "P10", [(L, "            let persistent = is_connection_persistent(&request);\n", ""), (L, "            let body_taken", "            let persistent = is_connection_persistent(&request);\n            let body_taken")]),
    ("persist-10-any", "bad", "P10", [(L, '"HTTP/1.0" && value == "keep-alive"', '"HTTP/1.0" || value == "keep-alive"')]),
    ("persist-request-drift", "bad", "P10", [(HM, 'if self.version == "HTTP/1.0" && value == "keep-alive" {', 'if self.version == "HTTP/1.0" && value != "keep-alive" {')]),
    # ---- exchange (P09)
    ("ex-400-then-continue", "bad", "P09", [(L, """                connection_open = false;
                let response = Response::from_status(StatusCode::BadRequest);""", """                connection_open = true;
                let response = Response::from_status(StatusCode::BadRequest);""")]),
    ("ex-write-error-ignored", "bad", "P09", [(L, """            source_addr, err
        );
        return false;
    };
    connection_open""", """            source_addr, err
        );
    };
    connection_open""")]),
    ("ex-ensure-error-ignored", "bad", "P09", [(L, """                error!("error reading request body, error info: {}", err);
                return false;""", """                error!("error reading request body, error info: {}", err);""")]),
    ("ex-no-drain", "bad", "P09", [(L, "if let Err(err) = body.ensure_read() {", "if let Err(err) = if body.content_length > 1 << 20 { body.ensure_read() } else { Ok(()) } {")]),
    ("ex-taken-body", "bad", "P09", [(L, "connection_open = persistent && !body_taken;", "connection_open = persistent || (persistent && !body_taken);")]),
    ("ex-404-as-500", "bad", "P09", [(L, "None => return Response::from_status(StatusCode::NotFound),", "None => return Response::from_status(StatusCode::InternalServerError),")]),
    ("ex-unknown-error-answered", "bad", "P09", [(L, """                debug!("error reading request {:?}", err);
                return false;""", """                debug!("error reading request {:?}", err);
                connection_open = false;
                (None, Response::from_status(StatusCode::InternalServerError))""")]),
    ("ex-drain-after-write", "same", "P09 P10", [(L, """    // Ensure the request body (if any) is read.
    if let Some(mut request) = request {
        let body = request.body.as_mut();
        if let Some(body) = body {
            if let Err(err) = body.ensure_read() {
                error!("error reading request body, error info: {}", err);
                return false;
            }
        }
    }
""", """    // Ensure the request body (if any) is read.
    let drained = request.and_then(|r| r.body).map(|mut body| body.ensure_read());
    if let Some(Err(err)) = drained {
        error!("error reading request body, error info: {}", err);
        return false;
    }
""")]),
    ("ex-helper", "same", "P09 P10", [(L, """        Err(err) => match err {
            HttpError::InvalidRequest(err) => {
                error!("error reading request, error info: {}", err);
                connection_open = false;
                let response = Response::from_status(StatusCode::BadRequest);
                (None, response)
            }
            err => {
                debug!("error reading request {:?}", err);
                return false;
            }
        },
    };""", """        Err(HttpError::InvalidRequest(err)) => {
            error!("error reading request, error info: {}", err);
            connection_open = false;
            (None, bad_request())
        }
        Err(err) => {
            debug!("error reading request {:?}", err);
            return false;
        }
    };"""), (L, "fn run_action(request", """fn bad_request() -> Response {
    Response::from_status(StatusCode::BadRequest)
}

fn run_action(request""")]),
    ("conv-loop", "same", "P09 P10 P12 P13", [(L, """    let mut connection_open = true;
    while connection_open {
        let handle_stream = stream.clone();
        connection_open = handle_connection(
            handle_stream,
            Arc::clone(&routes),
            source_addr,
            timeouts.clone(),
        );
        if let Err(err) = stream.flush() {
            error!("error flushing to: {}, {}", source_addr, err);
            return;
        }
        debug!("connection flushed");
    }
""", """    loop {
        let open = handle_connection(stream.clone(), routes.clone(), source_addr, timeouts.clone());
        match stream.flush() {
            Ok(()) => debug!("connection flushed"),
            Err(err) => {
                error!("error flushing to: {}, {}", source_addr, err);
                return;
            }
        }
        if !open {
            break;
        }
    }
""")]),
    # ---- P06, P07
    ("hdr-write-short", "bad", "P06", [(HH, """        written = to.write_all(self.value.as_bytes());
        if let Err(err) = written {
            return Err(HttpError::from(err));
        };
        written = to.write_all("\\r\\n".as_bytes());""", """        if let Err(err) = to.write(self.value.as_bytes()) {
            return Err(HttpError::from(err));
        };
        written = to.write_all("\\r\\n".as_bytes());""")]),
    ("hdr-write-unchecked", "bad", "P06", [(HH, """        written = to.write_all(": ".as_bytes());
        if let Err(err) = written {
            return Err(HttpError::from(err));
        };
""", """        let _ = to.write_all(": ".as_bytes());
""")]),
    ("body-noflush", "bad", "P06", [(HM, "io::copy(src, &mut dest).and_then(|copied| dest.flush().map(|_| copied))", "io::copy(src, &mut dest)")]),
    ("body-flush-ignored", "bad", "P06", [(HM, "io::copy(src, &mut dest).and_then(|copied| dest.flush().map(|_| copied))", "io::copy(src, &mut dest).map(|copied| { let _ = dest.flush(); copied })")]),
    ("blank-ok", "bad", "P06", [(HH, """        let written = to.write_all("\\r\\n".as_bytes());
        if let Err(err) = written {
            return Err(HttpError::from(err));
        };
        Ok(())
    }
}

impl Default""", """        let written = to.write_all("\\r\\n".as_bytes());
        if let Err(err) = written {
            debug!("error {:?}", err);
        };
        Ok(())
    }
}

impl Default""")]),
    ("body-no-take", "bad", "P07", [(HM, "let src = &mut self.content.by_ref().take(self.content_length);", "let src = &mut self.content.by_ref();")]),
    ("body-take-more", "bad", "P07", [(HM, "let src = &mut self.content.by_ref().take(self.content_length);", "let src = &mut self.content.by_ref().take(self.content_length + 1);")]),
    ("body-short-ok", "bad", "P07", [(HM, "Ok(copied) if copied < self.content_length => Err", "Ok(copied) if copied == 0 && self.content_length > 0 => Err")]),
    ("first-value-only", "bad", "P07", [(HH, "for content in h.1.iter() {\n                let content = content.clone();", "for content in h.1.iter().take(1) {\n                let content = content.clone();")]),
    ("skip-empty", "bad", "P07", [(HH, "for content in h.1.iter() {\n                let content = content.clone();", "for content in h.1.iter() {\n                if content.is_empty() { continue; }\n                let content = content.clone();")]),
    ("dup-length", "bad", "P07", [(HM, "if self.headers.get(\"Content-Length\").is_none() {\n            let length", "if self.headers.get(\"content-length\").is_none() {\n            let length")]),
    ("length-of-none", "bad", "P07", [(HM, "map_or(0, |body| body.content_length);", "map_or(0, |body| body.bytes_read);")]),
    ("no-space", "bad", "P07", [(HM, """format!("{:#} {} {}\\r\\n", self.method, self.uri, self.version)""", """format!("{:#} {}  {}\\r\\n", self.method, self.uri, self.version)""")]),
    ("swap-body-headers", "bad", "P07", [(HM, """        self.headers.write(to)?;
        match self.body.as_mut() {
            Some(body) => body.write(to).map_err(HttpError::from),
            None => Ok(()),
        }""", """        if let Some(body) = self.body.as_mut() {
            body.write(to)?;
        }
        self.headers.write(to)""")]),
    ("no-body", "bad", "P07", [(HM, "Some(body) => body.write(to).map_err(HttpError::from),", "Some(body) if body.content_length < 1 << 40 => body.write(to).map_err(HttpError::from),\n            Some(_) => Ok(()),")]),
    ("hdr-one-write", "same", "P06 P07", [(HH, """        let mut written = to.write_all(self.name.as_bytes());
        if let Err(err) = written {
            debug!("error writing Header: {:?}", err);
            return Err(HttpError::from(err));
        };
        written = to.write_all(": ".as_bytes());
        if let Err(err) = written {
            return Err(HttpError::from(err));
        };
        written = to.write_all(self.value.as_bytes());
        if let Err(err) = written {
            return Err(HttpError::from(err));
        };
        written = to.write_all("\\r\\n".as_bytes());
        if let Err(err) = written {
            return Err(HttpError::from(err));
        };
        Ok(())""", """        let line = format!("{}: {}\\r\\n", self.name, self.value);
        to.write_all(line.as_bytes()).map_err(HttpError::from)""")]),
    ("hdr-write-macro", "same", "P06 P07", [(HH, """        for h in self.iter() {
            let name = h.0.clone();
            for content in h.1.iter() {
                let content = content.clone();
                let name = name.clone();
                let header = Header {
                    name,
                    value: content,
                };
                header.write(to)?
            }
        }
""", """        for (name, values) in &self.headers {
            for value in values {
                write!(to, "{}: {}\\r\\n", name, value).map_err(HttpError::from)?;
            }
        }
""")]),
    ("body-helper", "same", "P06 P07", [(HM, """        let res = match self.content_length {
            x if x > u64::pow(2, 20) * 2 => {
                let buff_size = usize::pow(2, 20);
                let mut dest = BufWriter::with_capacity(buff_size, to);
                io::copy(src, &mut dest).and_then(|copied| dest.flush().map(|_| copied))
            }
            _ => io::copy(src, to),
        };
        match res {
            Err(err) => Err(HttpError::from(err)),
            Ok(copied) if copied < self.content_length => Err(HttpError::Unknown(
                "the content of the body is shorter than its length".to_string(),
            )),
            Ok(_) => Ok(()),
        }
    }
""", """        let large = self.content_length > 2 * 1024 * 1024;
        let copied = if large {
            Self::copy_buffered(src, to)
        } else {
            io::copy(src, to)
        }
        .map_err(HttpError::from)?;
        if copied == self.content_length {
            return Ok(());
        }
        Err(HttpError::Unknown("the content of the body is shorter than its length".to_string()))
    }

    fn copy_buffered<R: Read, W: io::Write>(src: &mut R, to: &mut W) -> io::Result<u64> {
        let mut dest = BufWriter::with_capacity(1 << 20, to);
        let copied = io::copy(src, &mut dest)?;
        dest.flush()?;
        Ok(copied)
    }
""")]),
    ("resp-reorder", "same", "P06 P07", [(HM, """        if self.headers.get("Content-Length").is_none() {
            let length = self.body.as_ref().map_or(0, |body| body.content_length);
            self.headers.add(Header {
                name: String::from("Content-Length"),
                value: length.to_string(),
            })
        }
        self.headers.write(to)?;
        match self.body.as_mut() {
            Some(body) => body.write(to).map_err(HttpError::from),
            None => Ok(()),
        }""", """        let announced = self.headers.get("Content-Length").is_some();
        if !announced {
            let length = match &self.body {
                Some(body) => body.content_length,
                None => 0,
            };
            let value = format!("{}", length);
            self.headers.add(Header { name: "Content-Length".to_string(), value });
        }
        self.headers.write(to)?;
        if let Some(body) = &mut self.body {
            return body.write(to);
        }
        Ok(())""")]),
    ("hdr-try-for-each", "same", "P06 P07", [(HH, """        for h in self.iter() {
            let name = h.0.clone();
            for content in h.1.iter() {
                let content = content.clone();
                let name = name.clone();
                let header = Header {
                    name,
                    value: content,
                };
                header.write(to)?
            }
        }
""", """        self.iter().try_for_each(|(name, values)| {
            values
                .iter()
                .map(|value| Header { name: name.clone(), value: value.clone() })
                .try_for_each(|header| header.write(to))
        })?;
""")]),
    ("hdr-filter", "bad", "P07", [(HH, """            for content in h.1.iter() {
                let content = content.clone();""", """            for content in h.1.iter().filter(|v| !v.is_empty()) {
                let content = content.clone();""")]),
    # ---- P12 - P19
    ("wait-interrupted", "bad", "P12", [(L, "if err.kind() != ErrorKind::Interrupted {", "if err.kind() != ErrorKind::WouldBlock {")]),
    ("accept-error-ends", "bad", "P12", [(L, """                        error!("error accepting connection: {}", err.to_string());
                        continue;""", """                        error!("error accepting connection: {}", err.to_string());
                        if err.kind() == ErrorKind::WouldBlock {
                            continue;
                        }
                        return Err(Box::new(err));""")]),
    ("rearm-after", "bad", "P12", [(L, """                epoller.modify(&listener, Event::readable(1))?;
                let (stream, src_addr)""", """                let (stream, src_addr)"""), (L, """                if pool.run(Box::new(action)).is_err() {""", """                epoller.modify(&listener, Event::readable(1))?;
                if pool.run(Box::new(action)).is_err() {""")]),
    ("busy-no-close", "bad", "P13", [(L, """        error!("sending too busy to {}: {}", src_addr, err.to_string())
    }
    let s""", """        error!("sending too busy to {}: {}", src_addr, err.to_string());
        return;
    }
    let s""")]),
    ("busy-close-write", "bad", "P13", [(L, """    if let Err(err) = s.shutdown(net::Shutdown::Both) {
        error!("error closing connection with: {}, {}", src_addr, err);
    }
    debug!("connection with closed")""", """    if let Err(err) = s.shutdown(net::Shutdown::Write) {
        error!("error closing connection with: {}, {}", src_addr, err);
    }
    debug!("connection with closed")""")]),
    ("busy-status", "bad", "P13", [(L, "Response::from_status(StatusCode::ServiceUnavailable)", "Response::from_status(StatusCode::InternalServerError)")]),
    ("notify-before-store", "bad", "P14", [(L, """        self.stop.as_ref().store(true, Ordering::SeqCst);
        self.poller.unwrap().notify()?;
""", """        self.poller.unwrap().notify()?;
        self.stop.as_ref().store(true, Ordering::SeqCst);
""")]),
    ("shutdown-no-join", "bad", "P14", [(L, """            Err(err) => {
                error!("error waiting for stopping accepting connections {:?}", err);
                let err = Box::new(Error::new(
                    ErrorKind::Other,
                    "error waiting for accepting connections",
                ));
                Err(err)
            }""", """            Err(err) => {
                error!("error waiting for stopping accepting connections {:?}", err);
                Ok(())
            }""")]),
    ("stop-checked-first", "bad", "P14", [(L, "            if stop.as_ref().load(Ordering::SeqCst) {\n", "            if events.is_empty() && stop.as_ref().load(Ordering::SeqCst) && active_streams.len() < 100 {\n")]),
    ("drain-read-half", "bad", "P14", [(L, "match p.shutdown(net::Shutdown::Both) {\n                                Ok(())", "match p.shutdown(net::Shutdown::Read) {\n                                Ok(())")]),
    ("poller-set-early", "bad", "P15", [(L, """        poller.add(&listener, Event::readable(1))?;
        let poller = Arc::new(poller);
        let epoller = Arc::clone(&poller);
        self.poller = Some(poller);
""", """        let poller = Arc::new(poller);
        let epoller = Arc::clone(&poller);
        self.poller = Some(poller);
        epoller.add(&listener, Event::readable(1))?;
""")]),
    ("exec-loses-job", "bad", "P16", [(TP, """            action = match stat.run(action) {
                Ok(_) => return Ok(()),
                Err(err) => err.action,
            };""", """            action = match stat.run(action) {
                Ok(_) => return Ok(()),
                Err(err) => { drop(err.action); Box::new(|| ()) }
            };""")]),
    ("dyn-first-skipped", "bad", "P16", [(DP, "            run(first_action);\n            loop {", "            if timeout > Duration::from_millis(1) { run(first_action); }\n            loop {")]),
    ("stat-no-catch", "bad", "P17", [(SP, "if catch_unwind(AssertUnwindSafe(action)).is_err() {", "if { action(); false } {")]),
    ("stat-break-on-panic", "bad", "P17", [(SP, """                    error!("worker: {}, the action panicked", id.to_string());
""", """                    error!("worker: {}, the action panicked", id.to_string());
                    break;
""")]),
    ("drop-join-first", "bad", "P18", [(SP, """        drop(self.sender.take());
        let handle = self.handle.take().unwrap();
        handle.join().unwrap();""", """        let handle = self.handle.take().unwrap();
        handle.join().unwrap();
        drop(self.sender.take());""")]),
    ("drop-dyn-nojoin", "bad", "P18", [(DP, """        handle.join().unwrap();
        debug!("worker {} dropped", self.id);""", """        if !handle.is_finished() { return; }
        handle.join().unwrap();
        debug!("worker {} dropped", self.id);""")]),
    ("dyn-max", "bad", "P19", [(TP, "Dynamic::new(max - min, DEFAULT_TIMEOUT)", "Dynamic::new(max, DEFAULT_TIMEOUT)")]),
    ("slot-early", "bad", "P19", [(DP, """                let res = receiver.recv_timeout(timeout);
                match res {""", """                let res = receiver.recv_timeout(timeout);
                if let Err(RecvTimeoutError::Timeout) = res { finished(); return; }
                match res {"""), (DP, "for i in 0..max {\n            let elem", "for i in 0..=max {\n            let elem")]),
    ("slot-lost", "bad", "P19", [(DP, """            None => return Err(action),
        };

        let free""", """            None => return Err(action),
        };
        if index > 1000 { return Err(action); }

        let free"""), (DP, "RecvTimeoutError::Disconnected => debug!(\"worker {} disconnected\", id),", "RecvTimeoutError::Disconnected => { debug!(\"worker {} disconnected\", id); return }")]),
    ("pool-extend", "same", "P16 P17 P18 P19", [(SP, """        let mut workers = Vec::with_capacity(size);
        for i in 0..size {
            workers.push(Worker::new(i));
        }
""", """        let mut workers = Vec::with_capacity(size);
        workers.extend((0..size).map(Worker::new));
"""), (DP, """        let mut workers: Vec<Arc<AtomicRefCell<DynamicWorkerElem>>> = Vec::with_capacity(max);
        let mut free_cells = VecDeque::new();
        for i in 0..max {
            let elem: Option<DynamicWorker> = None;
            let elem = Arc::new(AtomicRefCell::new(elem));
            workers.push(elem);
            free_cells.push_back(i);
        }
""", """        let workers: Vec<Arc<AtomicRefCell<DynamicWorkerElem>>> = (0..max).map(|_| Arc::new(AtomicRefCell::new(None))).collect();
        let free_cells: VecDeque<usize> = (0..max).collect();
""")]),
    ("pool-while", "same", "P16 P17 P18 P19", [(SP, """        let mut workers = Vec::with_capacity(size);
        for i in 0..size {
            workers.push(Worker::new(i));
        }
""", """        let mut workers = Vec::with_capacity(size);
        let mut id = 0;
        while id < size {
            let worker = Worker::new(id);
            workers.push(worker);
            id += 1;
        }
"""), (SP, """        let sender = self.sender.as_ref().unwrap();
        match sender.try_send(action) {
            Ok(()) => Ok(()),
            Err(err) => match err {
                TrySendError::Full(action) => Err(action),
                TrySendError::Disconnected(action) => Err(action),
            },
        }""", """        self.sender
            .as_ref()
            .unwrap()
            .try_send(action)
            .map_err(|err| match err {
                TrySendError::Full(action) | TrySendError::Disconnected(action) => action,
            })""")]),
    ("pool-run-match", "same", "P16 P17 P18 P19", [(TP, """        let mut action = action;
        if let Some(stat) = self.stat.as_mut() {
            action = match stat.run(action) {
                Ok(_) => return Ok(()),
                Err(err) => err.action,
            };
        };
        match self.dynamic.as_mut() {
            Some(dynamic) => dynamic.run(action),
            None => Err(PoolError { action }),
        }""", """        let rejected = match &mut self.stat {
            Some(stat) => stat.run(action),
            None => Err(PoolError { action }),
        };
        rejected.or_else(|err| match &mut self.dynamic {
            Some(dynamic) => dynamic.run(err.action),
            None => Err(err),
        })"""), (DP, """        for i in 0..self.max {
            let mut worker = self.workers[i].as_ref().borrow_mut();
            let worker = worker.as_mut();
            action = match worker {""", """        for cell in self.workers.iter() {
            let mut worker = cell.as_ref().borrow_mut();
            action = match worker.as_mut() {""")]),
    ("worker-while-let", "same", "P16 P17 P18 P19", [(SP, """        let handle = std::thread::spawn(move || loop {
            t_initialized.store(true, Ordering::SeqCst);
            let res = receiver.recv();
            if let Ok(action) = res {
                // A panic in an action must not stop the worker.
                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                }
                debug!("action executed");
                continue;
            }
            debug!("woker: {} stopped", id.to_string());
            break;
        });""", """        let handle = std::thread::spawn(move || {
            t_initialized.store(true, Ordering::SeqCst);
            while let Ok(action) = receiver.recv() {
                if let Err(_) = catch_unwind(AssertUnwindSafe(|| action())) {
                    error!("worker: {}, the action panicked", id.to_string());
                }
                debug!("action executed");
            }
            debug!("woker: {} stopped", id.to_string());
        });""")]),
    ("accept-helper", "same", "P12 P13 P14 P15", [(L, """            if stop.as_ref().load(Ordering::SeqCst) {
                let pending = active_streams.drain();
                for p in pending {
                    match p.upgrade() {
                        Some(p) => {
                            match p.shutdown(net::Shutdown::Both) {
                                Ok(()) => debug!("pending active connection closed"),
                                Err(err) => {
                                    error!("error closing a pending active connection {}", err)
                                }
                            };
                        }
                        None => debug!("pending active connection already dropped"),
                    }
                }
                break;
            };""", """            if stop.load(Ordering::SeqCst) {
                active_streams.drain().iter().for_each(|pending| {
                    if let Some(pending) = pending.upgrade() {
                        if let Err(err) = pending.shutdown(net::Shutdown::Both) {
                            error!("error closing a pending active connection {}", err);
                        }
                    }
                });
                break;
            };"""), (L, """        match handle.join() {
            Ok(result) => match result {
                Ok(()) => Ok(()),
                Err(error) => {
                    let err = Box::new(Error::new(ErrorKind::Other, error.to_string()));
                    Err(err)
                }
            },""", """        match handle.join() {
            Ok(Ok(())) => Ok(()),
            Ok(Err(error)) => Err(Box::new(Error::new(ErrorKind::Other, error.to_string()))),""")]),
]
