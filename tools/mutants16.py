"""streams: rewrites that keep the behaviour, and some that do not"""
C = "wruster/src/streams/cancellable_stream.rs"
T = "wruster/src/streams/timeout_stream.rs"
O = "wruster/src/streams/observable.rs"
L = "wruster/src/streams/tls/mod.rs"
CAN = "P01 P02 P11 P14 P20 P21 P36"
TIM = "P01 P11 P20 P36"
OBS = "P14 P20 P22"
TLS = "P01 P20 P35"

PRE = """        match self.stream.read_buf(buf) {
            Ok(n) if n > 0 => return Ok(n),
            Err(err) if err.kind() != io::ErrorKind::WouldBlock => return Err(err),
            _ => (),
        }
"""
WAIT = """        if self.poller.wait(&mut events, *timeout)? == 0 {
            let stop = self.done.load(atomic::Ordering::SeqCst);
            if stop {
                return Err(io::Error::from(io::ErrorKind::NotConnected));
            };
            // TODO: Actually we could be here not only because the timeout
            // passed without read operations available, but also because the
            // OS returned no events spuriously, so we should check ourselves
            // if the timeout period has passed, and if not, retry the wait.
            return Err(io::Error::from(io::ErrorKind::TimedOut));
        }
"""
RLOOP = """            let read_buf = &mut buf[bytes_read..];
            let s = &self.stream;

            let result = match s.read_buf(read_buf) {
                Ok(0) if self.done.load(Ordering::SeqCst) => {
                    Err(io::Error::from(io::ErrorKind::NotConnected))
                }
                Ok(n) => Ok(n),
                Err(err) => Err(err),
            };
            match result {
                Ok(n) => {
                    bytes_read += n;
                }
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
                    // If we are unable to read anything we signal the reader
                    // that is safe to retry the operation by returning and
                    // error of kind: Interrupted. Reference:
                    // https://doc.rust-lang.org/std/io/trait.Read.html#errors.
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                Err(err) => return Err(err),
            };
"""
RTAIL = """        if bytes_read == 0 {
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        Ok(bytes_read)
"""
WREADY = """            let ready = match self.poller.wait(&mut events, *timeout) {
                // An interrupted operation is retried by the writer from its
                // start, so what is already written has to be reported.
                Err(err) if err.kind() == io::ErrorKind::Interrupted && bytes_written > 0 => {
                    return Ok(bytes_written)
                }
                ready => ready?,
            };
            if ready == 0 {
                let stop = self.done.load(atomic::Ordering::SeqCst);
                if stop {
                    return Err(io::Error::from(io::ErrorKind::NotConnected));
                };
"""
WLOOP = """            for evt in &events {
                if evt.key != 1 || !evt.writable {
                    continue;
                }
                let write_buf = &buf[bytes_written..];
                let s = &self.stream;
                match s.write_buf(write_buf) {
                    Ok(n) => {
                        bytes_written += n;
                    }
                    Err(err)
                        if err.kind() == io::ErrorKind::WouldBlock
                            || err.kind() == io::ErrorKind::Interrupted =>
                    {
                        break;
                    }
                    Err(err) => return Err(err),
                };
                break;
            }
"""
WRITEFN_END = """        Ok(bytes_written)
    }
}
"""
RT = """        let next_timeout = read.next_timeout();
        if next_timeout.is_zero() {
            return Err(io::Error::from(io::ErrorKind::TimedOut));
        }
        let stream = &self.stream;
        if let Err(err) = stream.set_read_timeout(Some(next_timeout)) {
            return io::Result::Err(err);
        }
"""
ROP = """        let read = match self.ongoing_read.as_mut() {
            None => {
                // if there is no current ongoing read operation create a new
                // one.
                self.ongoing_read = Some(Operation::from_timeout(timeout));
                self.ongoing_read.as_mut().unwrap()
            }
            Some(operation) => operation,
        };
"""
RRES = """        let res = stream.read(buf).map_err(|err| {
            // REVIEW: In some cases a read operation over a stream returns
            // WouldBlock instead of the expected TimedOut.
            match err.kind() {
                ErrorKind::WouldBlock => io::Error::from(ErrorKind::TimedOut),
                _ => err,
            }
        });
        read.stop();
        res
"""
WOP = """        let write = match self.ongoing_write.as_mut() {
            None => {
                // If no timeout has set for write, we just pass through to the
                // underlying writer.
                self.ongoing_write = Some(Operation::from_timeout(timeout));
                self.ongoing_write.as_mut().unwrap()
            }
            Some(operation) => operation,
        };
"""
WRES = """        let res = stream.write(buf).map_err(|err| {
            // REVIEW: In some cases a read operation over a stream returns
            // WouldBlock instead of the expected TimedOut.
            match err.kind() {
                ErrorKind::WouldBlock => io::Error::from(ErrorKind::TimedOut),
                _ => err,
            }
        });
        write.stop();
        res
"""
STOP = """        if let Some(started) = self.started {
            self.elapsed += started.elapsed();
        } else {
            println!("operation not initialized stopped");
        }
"""
TRACK = """        let mut stream = ObservableStream::new(stream);
        let parent = Arc::downgrade(list);
        let key = list.next_key.fetch_add(1, Ordering::SeqCst);
        stream.parent = Some((key, parent));
        let stream = Arc::new(stream);
        let mut items = list.items.write().unwrap();
        items.insert(key, Arc::downgrade(&stream));
        ObservedStream { stream }
"""
ODROP = """        let parent = match &self.parent {
            Some(it) => it,
            _ => return,
        };
        let key = parent.0;
        if let Some(parent) = parent.1.upgrade() {
            parent.dropped(key);
        }
"""
CERT = """        let cert = rustls_pemfile::certs(&mut cert_reader)?
            .iter()
            .map(|v| rustls::Certificate(v.clone()))
            .collect::<Vec<rustls::Certificate>>();
        match cert.len() {
            0 => Err(io::Error::new(
                io::ErrorKind::Other,
                format!("no certificate found in {} ", path),
            )),
            _ => Ok(Certificate(cert[0].clone())),
        }
"""
KEY = """        match rustls_pemfile::read_one(&mut reader)? {
            Some(rustls_pemfile::Item::RSAKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
            Some(rustls_pemfile::Item::PKCS8Key(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
            Some(rustls_pemfile::Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
            None => Err(io::Error::new(
                io::ErrorKind::Other,
                format!("no private key found in {} ", path),
            )),
            _ => Err(io::Error::new(
                io::ErrorKind::Other,
                format!("no private key found in {} ", path),
            )),
        }
"""
COPEN = """        let file = std::fs::File::open(cert_path).map_err(|err| {
            if err.kind() == io::ErrorKind::NotFound {
                io::Error::new(io::ErrorKind::Other, format!("file {} not found", path))
            } else {
                err
            }
        })?;
"""
TNEW = """        let connection = ServerConnection::new(Arc::clone(&tls_config))
            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
"""

MUTANTS = [
    # cancellable stream
    ("sr-same-pre-if", "same", CAN, [(C, PRE, """        let early = self.stream.read_buf(buf);
        match early {
            Ok(0) => {}
            Ok(n) => return Ok(n),
            Err(err) => {
                if err.kind() != io::ErrorKind::WouldBlock {
                    return Err(err);
                }
            }
        }
""")]),
    ("sr-same-pre-helper", "same", CAN, [(C, PRE, """        if let Some(n) = self.take_buffered(buf)? {
            return Ok(n);
        }
"""), (C, "    fn write_int(&self", """    fn take_buffered(&self, buf: &mut [u8]) -> io::Result<Option<usize>> {
        match self.stream.read_buf(buf) {
            Ok(0) => Ok(None),
            Ok(n) => Ok(Some(n)),
            Err(err) if err.kind() == io::ErrorKind::WouldBlock => Ok(None),
            Err(err) => Err(err),
        }
    }

    fn write_int(&self""")]),
    ("sr-same-wait-helper", "same", CAN, [(C, WAIT, """        let ready = self.poller.wait(&mut events, *timeout)?;
        if ready == 0 {
            return Err(self.nothing_ready());
        }
"""), (C, "    fn write_int(&self", """    fn nothing_ready(&self) -> io::Error {
        let kind = if self.done.load(Ordering::SeqCst) {
            io::ErrorKind::NotConnected
        } else {
            io::ErrorKind::TimedOut
        };
        io::Error::from(kind)
    }

    fn write_int(&self""")]),
    ("sr-same-both-helper", "same", CAN, [(C, WAIT, """        self.await_ready(&mut events, *timeout)?;
"""), (C, "    fn write_int(&self", """    fn await_ready(&self, events: &mut Vec<Event>, timeout: Option<Duration>) -> io::Result<()> {
        match self.poller.wait(events, timeout) {
            Ok(0) if self.done.load(Ordering::SeqCst) => {
                Err(io::Error::from(io::ErrorKind::NotConnected))
            }
            Ok(0) => Err(io::Error::from(io::ErrorKind::TimedOut)),
            Ok(_) => Ok(()),
            Err(err) => Err(err),
        }
    }

    fn write_int(&self""")]),
    ("sr-same-rloop", "same", CAN, [(C, RLOOP, """            match self.stream.read_buf(&mut buf[bytes_read..]) {
                Ok(0) if self.done.load(Ordering::SeqCst) => {
                    return Err(io::Error::from(io::ErrorKind::NotConnected));
                }
                Ok(n) => bytes_read += n,
                Err(err) => {
                    return Err(match err.kind() {
                        io::ErrorKind::WouldBlock => io::Error::from(io::ErrorKind::Interrupted),
                        _ => err,
                    })
                }
            };
""")]),
    ("sr-same-rtail", "same", CAN, [(C, RTAIL, """        match bytes_read {
            0 => Err(io::ErrorKind::ConnectionReset.into()),
            n => Ok(n),
        }
""")]),
    ("sr-same-rfilter", "same", CAN, [(C, """        for evt in &events {
            if evt.key != 1 {
                continue;
            }
            let read_buf""", """        for _ in events.iter().filter(|evt| evt.key == 1) {
            let read_buf""")]),
    ("sr-same-timeout", "same", CAN, [(C, "        let timeout = &self.read_timeout.write().unwrap().clone();\n", "        let timeout = *self.read_timeout.read().unwrap();\n"), (C, "        if self.poller.wait(&mut events, *timeout)? == 0 {", "        if self.poller.wait(&mut events, timeout)? == 0 {")]),
    ("sr-same-wready", "same", CAN, [(C, WREADY, """            let ready = match self.poller.wait(&mut events, *timeout) {
                Ok(n) => n,
                Err(err) => {
                    if bytes_written > 0 && err.kind() == io::ErrorKind::Interrupted {
                        return Ok(bytes_written);
                    }
                    return Err(err);
                }
            };
            if ready == 0 {
                if self.done.load(atomic::Ordering::SeqCst) {
                    return Err(io::ErrorKind::NotConnected.into());
                }
""")]),
    ("sr-same-wloop", "same", CAN, [(C, WLOOP, """            if events.iter().any(|evt| evt.key == 1 && evt.writable) {
                match self.stream.write_buf(&buf[bytes_written..]) {
                    Ok(n) => bytes_written += n,
                    Err(err) => match err.kind() {
                        io::ErrorKind::WouldBlock | io::ErrorKind::Interrupted => {}
                        _ => return Err(err),
                    },
                }
            }
""")]),
    ("sr-same-wrest", "same", CAN, [(C, "        let buf_len = buf.len();\n        while bytes_written < buf_len {", "        while !buf[bytes_written..].is_empty() {")]),
    ("sr-same-wloop-loop", "same", CAN, [(C, "        while bytes_written < buf_len {\n            events.clear();", "        loop {\n            if bytes_written >= buf_len {\n                break;\n            }\n            events.clear();")]),
    ("sr-same-shutdown", "same", CAN, [(C, "        self.done.store(true, Ordering::SeqCst);\n        self.stream.shutdown(how)", "        let stream = &self.stream;\n        let _ = self.done.swap(true, Ordering::SeqCst);\n        stream.shutdown(how)")]),
    ("sr-same-setto", "same", CAN, [(C, "        let mut read_timeout = self.read_timeout.write().unwrap();\n        *read_timeout = dur;\n        Ok(())", "        self.read_timeout.write().map(|mut slot| *slot = dur).unwrap();\n        Ok(())")]),
    ("sr-shutdown-order", "bad", CAN, [(C, "        self.done.store(true, Ordering::SeqCst);\n        self.stream.shutdown(how)", "        let res = self.stream.shutdown(how);\n        self.done.store(true, Ordering::SeqCst);\n        res")]),
    ("sr-write-done", "bad", CAN, [(C, """                let stop = self.done.load(atomic::Ordering::SeqCst);
                if stop {
                    return Err(io::Error::from(io::ErrorKind::NotConnected));
                };
                // TODO: Actually we could be here not only because the timeout
                // passed without the stream""", """                // TODO: Actually we could be here not only because the timeout
                // passed without the stream""")]),
    ("sr-write-oneshot", "bad", CAN, [(C, """            self.poller
                .modify(self.stream.as_raw(), Event::writable(1))?;
            let ready = """, """            if bytes_written == 0 {
                self.poller
                    .modify(self.stream.as_raw(), Event::writable(1))?;
            }
            let ready = """)]),
    # timeout stream
    ("sr-same-rt", "same", TIM, [(T, RT, """        let next_timeout = match read.next_timeout() {
            left if left.is_zero() => return Err(ErrorKind::TimedOut.into()),
            left => left,
        };
        self.stream.set_read_timeout(Some(next_timeout))?;
""")]),
    ("sr-same-rop", "same", TIM, [(T, ROP, """        let read = self
            .ongoing_read
            .get_or_insert_with(|| Operation::from_timeout(timeout));
""")]),
    ("sr-same-rop2", "same", TIM, [(T, ROP, """        if self.ongoing_read.is_none() {
            self.ongoing_read = Some(Operation::from_timeout(timeout));
        }
        let read = self.ongoing_read.as_mut().expect("an operation is ongoing");
""")]),
    ("sr-same-rres", "same", TIM, [(T, RRES, """        let res = stream.read(buf);
        read.stop();
        match res {
            Err(err) if err.kind() == ErrorKind::WouldBlock => Err(ErrorKind::TimedOut.into()),
            res => res,
        }
""")]),
    ("sr-same-rres-helper", "same", TIM, [(T, RRES, """        let res = stream.read(buf).map_err(as_timeout);
        read.stop();
        res
"""), (T, WRES, """        let res = stream.write(buf).map_err(as_timeout);
        write.stop();
        res
"""), (T, "struct Operation {", """fn as_timeout(err: io::Error) -> io::Error {
    if err.kind() == ErrorKind::WouldBlock {
        return io::Error::from(ErrorKind::TimedOut);
    }
    err
}

struct Operation {""")]),
    ("sr-same-stop", "same", TIM, [(T, STOP, """        match self.started {
            Some(started) => self.elapsed = self.elapsed + started.elapsed(),
            None => println!("operation not initialized stopped"),
        }
""")]),
    ("sr-same-stop-since", "same", TIM, [(T, STOP, """        match self.started.take() {
            Some(started) => self.elapsed += Instant::now().duration_since(started),
            None => println!("operation not initialized stopped"),
        }
""")]),
    ("sr-same-left", "same", TIM, [(T, "        self.timeout.saturating_sub(self.elapsed)\n", "        self.timeout\n            .checked_sub(self.elapsed)\n            .unwrap_or(Duration::ZERO)\n")]),
    ("sr-same-left-if", "same", TIM, [(T, "        self.timeout.saturating_sub(self.elapsed)\n", "        if self.elapsed >= self.timeout {\n            return Duration::ZERO;\n        }\n        self.timeout - self.elapsed\n")]),
    ("sr-same-none", "same", TIM, [(T, """        let timeout = match self.read {
            None => return stream.read(buf),
            Some(timeout) => timeout,
        };
""", """        let timeout = if let Some(timeout) = self.read {
            timeout
        } else {
            return stream.read(buf);
        };
""")]),
    ("sr-same-timed", "same", TIM, [(T, WRES, """        let res = match stream.write(buf) {
            Ok(n) => Ok(n),
            Err(err) if err.kind() == ErrorKind::WouldBlock => Err(io::Error::from(ErrorKind::TimedOut)),
            Err(err) => Err(err),
        };
        write.stop();
        res
""")]),
    ("sr-stop-only-ok", "bad", TIM, [(T, WRES, """        let res = stream.write(buf);
        if res.is_ok() {
            write.stop();
        }
        res.map_err(|err| match err.kind() {
            ErrorKind::WouldBlock => io::Error::from(ErrorKind::TimedOut),
            _ => err,
        })
""")]),
    ("sr-elapsed-assign", "bad", TIM, [(T, "            self.elapsed += started.elapsed();", "            self.elapsed = started.elapsed();")]),
    ("sr-left-max", "bad", TIM, [(T, "        self.timeout.saturating_sub(self.elapsed)\n", "        self.timeout.saturating_sub(self.elapsed).max(Duration::from_millis(1))\n")]),
    ("sr-start-keep", "bad", TIM, [(T, "        self.started = Some(Instant::now());", "        self.started.get_or_insert_with(Instant::now);")]),
    # observable
    ("sr-same-track", "same", OBS, [(O, TRACK, """        let key = list.next_key.fetch_add(1, Ordering::SeqCst);
        let stream = Arc::new(ObservableStream {
            observed: stream,
            parent: Some((key, Arc::downgrade(list))),
        });
        let weak = Arc::downgrade(&stream);
        list.items.write().unwrap().insert(key, weak);
        ObservedStream { stream }
""")]),
    ("sr-same-track-lock", "same", OBS, [(O, TRACK, """        let mut items = list.items.write().unwrap();
        let key = list.next_key.fetch_add(1, Ordering::SeqCst);
        let observable = ObservableStream {
            parent: Some((key, Arc::downgrade(list))),
            observed: stream,
        };
        let observed = ObservedStream { stream: Arc::new(observable) };
        items.insert(key, Arc::downgrade(&observed.stream));
        drop(items);
        observed
""")]),
    ("sr-same-odrop", "same", OBS, [(O, ODROP, """        if let Some((key, list)) = self.parent.as_ref() {
            if let Some(list) = list.upgrade() {
                list.dropped(*key);
            }
        }
""")]),
    ("sr-same-odrop2", "same", OBS, [(O, ODROP, """        let (key, list) = match &self.parent {
            Some((key, list)) => (*key, list.upgrade()),
            None => return,
        };
        match list {
            Some(list) => list.dropped(key),
            None => {}
        }
""")]),
    ("sr-same-odrop3", "same", OBS, [(O, ODROP, """        let list = self.parent.as_ref().and_then(|(key, list)| list.upgrade().map(|list| (*key, list)));
        if let Some((key, list)) = list {
            list.dropped(key);
        }
""")]),
    ("sr-same-drain-take", "same", OBS, [(O, "        items.drain().map(|x| x.1).collect()", "        std::mem::take(&mut *items).into_values().collect()")]),
    ("sr-same-drain-loop", "same", OBS, [(O, "        items.drain().map(|x| x.1).collect()", "        let mut all = Vec::with_capacity(items.len());\n        for (_, item) in items.drain() {\n            all.push(item);\n        }\n        all")]),
    ("sr-same-new", "same", OBS, [(O, """        let items = HashMap::<usize, Weak<ObservableStream<T>>>::new();
        let list = ObservedStreamList {
            items: RwLock::new(items),
            next_key: AtomicUsize::new(0),
        };
        Arc::new(list)
""", """        Arc::new(ObservedStreamList {
            items: RwLock::default(),
            next_key: AtomicUsize::default(),
        })
""")]),
    ("sr-same-clone", "same", OBS, [(O, "        let stream = Arc::clone(&self.stream);\n        Self { stream }", "        ObservedStream {\n            stream: self.stream.clone(),\n        }")]),
    ("sr-track-key", "bad", OBS, [(O, "        let key = list.next_key.fetch_add(1, Ordering::SeqCst);", "        let key = list.next_key.load(Ordering::SeqCst);\n        list.next_key.store(key + 1, Ordering::SeqCst);")]),
    ("sr-track-strong", "bad", OBS, [(O, "        items.insert(key, Arc::downgrade(&stream));\n        ObservedStream { stream }", "        if items.len() < 1024 {\n            items.insert(key, Arc::downgrade(&stream));\n        }\n        ObservedStream { stream }")]),
    # tls
    ("sr-same-cert-first", "same", TLS, [(L, CERT, """        let certs = rustls_pemfile::certs(&mut cert_reader)?;
        match certs.into_iter().next() {
            Some(cert) => Ok(Certificate(rustls::Certificate(cert))),
            None => Err(io::Error::new(
                io::ErrorKind::Other,
                format!("no certificate found in {} ", path),
            )),
        }
""")]),
    ("sr-same-cert-empty", "same", TLS, [(L, CERT, """        let certs = rustls_pemfile::certs(&mut cert_reader)?;
        if certs.is_empty() {
            return Err(io::Error::new(
                io::ErrorKind::Other,
                format!("no certificate found in {} ", path),
            ));
        }
        Ok(Certificate(rustls::Certificate(certs[0].clone())))
""")]),
    ("sr-same-cert-okor", "same", TLS, [(L, CERT, """        rustls_pemfile::certs(&mut cert_reader)?
            .first()
            .map(|cert| Certificate(rustls::Certificate(cert.clone())))
            .ok_or_else(|| io::Error::new(io::ErrorKind::Other, format!("no certificate found in {} ", path)))
""")]),
    ("sr-same-key-or", "same", TLS, [(L, KEY, """        match rustls_pemfile::read_one(&mut reader)? {
            Some(rustls_pemfile::Item::RSAKey(key))
            | Some(rustls_pemfile::Item::PKCS8Key(key))
            | Some(rustls_pemfile::Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
            _ => Err(io::Error::new(
                io::ErrorKind::Other,
                format!("no private key found in {} ", path),
            )),
        }
""")]),
    ("sr-same-key-let", "same", TLS, [(L, KEY, """        let item = rustls_pemfile::read_one(&mut reader)?;
        let key = match item {
            Some(rustls_pemfile::Item::RSAKey(key)) => key,
            Some(rustls_pemfile::Item::PKCS8Key(key)) => key,
            Some(rustls_pemfile::Item::ECKey(key)) => key,
            _ => {
                return Err(io::Error::new(
                    io::ErrorKind::Other,
                    format!("no private key found in {} ", path),
                ))
            }
        };
        Ok(PrivateKey(rustls::PrivateKey(key)))
""")]),
    ("sr-same-open", "same", TLS, [(L, COPEN, """        let file = match std::fs::File::open(&cert_path) {
            Ok(file) => file,
            Err(err) if err.kind() == io::ErrorKind::NotFound => {
                return Err(io::Error::new(io::ErrorKind::Other, format!("file {} not found", path)));
            }
            Err(err) => return Err(err),
        };
""")]),
    ("sr-same-conn", "same", TLS, [(L, TNEW, """        let connection = match ServerConnection::new(tls_config.clone()) {
            Ok(connection) => connection,
            Err(err) => return Err(io::Error::new(io::ErrorKind::Other, err)),
        };
""")]),
    ("sr-same-lock", "same", TLS, [(L, "        let mut stream = self.stream.lock().unwrap();\n        stream.read(buf)", "        self.stream.lock().unwrap().read(buf)")]),
    ("sr-same-other", "same", TLS, [(L, """            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
        let plain_stream""", """            .map_err(other)?;
        let plain_stream"""), (L, "struct ComposeError {", """fn other(err: rustls::Error) -> io::Error {
    io::Error::new(io::ErrorKind::Other, err)
}

struct ComposeError {""")]),
    ("sr-tls-raw", "bad", "P21", [(L, "        let stream = &self.plain_stream;\n        stream.set_nonblocking(nonblocking)", "        let _ = nonblocking;\n        Ok(())")]),
]
