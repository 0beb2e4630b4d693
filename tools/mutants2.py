CS = "wruster/src/streams/cancellable_stream.rs"
TS = "wruster/src/streams/timeout_stream.rs"
OB = "wruster/src/streams/observable.rs"
TL = "wruster/src/streams/tls/mod.rs"
SM = "wruster/src/streams/mod.rs"
WEVT = """            for evt in &events {
                if evt.key != 1 || !evt.writable {
                    continue;
                }
                let write_buf = &buf[bytes_written..];
                let s = &self.stream;
                match s.write_buf(write_buf) {
                    Ok(n) => {
                        bytes_written += n;
                    }
                    Err(err)
                        if err.kind() == io::ErrorKind::WouldBlock
                            || err.kind() == io::ErrorKind::Interrupted =>
                    {
                        break;
                    }
                    Err(err) => return Err(err),
                };
                break;
            }
"""
MUTANTS = [
    # ---- fidelity of the wrappers (P20)
    ("st-write-restart", "bad", "P20", [(CS, "&buf[bytes_written..]", "buf")]),
    ("st-write-set", "bad", "P20", [(CS, "                        bytes_written += n;", "                        bytes_written = n;")]),
    ("st-write-claims-all", "bad", "P20", [(CS, "                            || err.kind() == io::ErrorKind::Interrupted =>\n                    {\n                        break;", "                            || err.kind() == io::ErrorKind::Interrupted =>\n                    {\n                        return Ok(buf_len);")]),
    ("st-write-err-ok", "bad", "P20", [(CS, "                    Err(err) => return Err(err),\n                };\n                break;", "                    Err(_) => return Ok(bytes_written),\n                };\n                break;")]),
    ("st-obs-flush-noop", "bad", "P20", [(OB, "        let mut s = &self.stream.observed;\n        s.flush()", "        let mut s = &self.stream.observed;\n        let _ = s.flush();\n        Ok(())")]),
    ("st-cs-flush-noop", "bad", "P20", [(CS, "    fn flush(&mut self) -> io::Result<()> {\n        self.stream.flush_data()", "    fn flush(&mut self) -> io::Result<()> {\n        Ok(())")]),
    ("st-tls-flush-plain", "bad", "P20", [(TL, "        let mut stream = self.stream.lock().unwrap();\n        stream.flush()", "        let _stream = self.stream.lock().unwrap();\n        let mut plain = &self.plain_stream;\n        plain.flush()")]),
    ("st-tls-write-plain", "bad", "P20", [(TL, "        let mut stream = self.stream.lock().unwrap();\n        stream.write(buf)", "        let _stream = self.stream.lock().unwrap();\n        let mut plain = &self.plain_stream;\n        plain.write(buf)")]),
    ("st-read-eof-ok", "bad", "P20", [(CS, "return Err(io::Error::from(io::ErrorKind::Interrupted));", "return Ok(buf_len);")]),
    ("st-read-offset", "bad", "P20", [(CS, "        let mut bytes_read = 0;", "        let mut bytes_read = usize::from(buf.len() > 8192);")]),
    ("st-read-no-first-return", "bad", "P20", [(CS, "            Ok(n) if n > 0 => return Ok(n),", "            Ok(n) if n > 1 => return Ok(n),")]),
    ("st-to-write-trunc", "bad", "P20", [(TS, "        let res = stream.write(buf).map_err", "        let res = stream.write_all(buf).map(|_| buf.len() + 1).map_err")]),
    ("st-same-while", "same", "P20 P21 P11", [(CS, WEVT, """            let writable = events.iter().any(|evt| evt.key == 1 && evt.writable);
            if !writable {
                continue;
            }
            match self.stream.write_buf(&buf[bytes_written..]) {
                Ok(n) => bytes_written += n,
                Err(err) if matches!(err.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::Interrupted) => (),
                Err(err) => return Err(err),
            }
""")]),
    ("st-same-helper", "same", "P20 P21 P11", [(CS, WEVT, """            let ready = events.iter().filter(|evt| evt.key == 1 && evt.writable).count();
            if ready > 0 {
                bytes_written += self.write_ready(&buf[bytes_written..])?;
            }
"""), (CS, "    fn write_int(&self, buf: &[u8]) -> io::Result<usize> {", """    fn write_ready(&self, pending: &[u8]) -> io::Result<usize> {
        match self.stream.write_buf(pending) {
            Err(err) if matches!(err.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::Interrupted) => Ok(0),
            other => other,
        }
    }

    fn write_int(&self, buf: &[u8]) -> io::Result<usize> {""")]),
    ("st-same-deleg", "same", "P20 P21 P11", [(OB, "        let mut s = &self.stream.observed;\n        s.flush()", "        (&self.stream.observed).flush()"), (OB, "        let mut s = &self.stream.observed;\n        s.write(buf)", "        let observed: &CancellableStream<T> = self.stream.deref();\n        let mut writer = observed;\n        writer.write(buf)")]),
    ("st-same-pending", "same", "P20 P21 P11", [(CS, "        let mut bytes_written = 0;\n        let buf_len = buf.len();\n        while bytes_written < buf_len {", "        let mut pending = buf;\n        while !pending.is_empty() {"), (CS, "                let write_buf = &buf[bytes_written..];\n", ""), (CS, "s.write_buf(write_buf)", "s.write_buf(pending)"), (CS, "                        bytes_written += n;", "                        pending = &pending[n..];"), (CS, "Interrupted && bytes_written > 0 => {\n                    return Ok(bytes_written)", "Interrupted && pending.len() < buf.len() => {\n                    return Ok(buf.len() - pending.len())"), (CS, "        Ok(bytes_written)", "        Ok(buf.len())")]),
    # ---- cancelling (P21)
    ("ca-flag-after", "bad", "P21", [(CS, "        self.done.store(true, Ordering::SeqCst);\n        self.stream.shutdown(how)", "        let res = self.stream.shutdown(how);\n        self.done.store(true, Ordering::SeqCst);\n        res")]),
    ("ca-flag-on-ok", "bad", "P21", [(CS, "        self.done.store(true, Ordering::SeqCst);\n        self.stream.shutdown(how)", "        if how == Shutdown::Both {\n            self.done.store(true, Ordering::SeqCst);\n        }\n        self.stream.shutdown(how)")]),
    ("ca-how", "bad", "P21", [(CS, "        self.stream.shutdown(how)", "        let _ = how;\n        self.stream.shutdown(Shutdown::Read)")]),
    ("ca-arm-once", "bad", "P21", [(CS, """        while bytes_written < buf_len {
            events.clear();
            self.poller
                .modify(self.stream.as_raw(), Event::writable(1))?;
""", """        self.poller
            .modify(self.stream.as_raw(), Event::writable(1))?;
        while bytes_written < buf_len {
            events.clear();
""")]),
    ("ca-dir", "bad", "P21", [(CS, "Event::writable(1)", "Event::readable(1)")]),
    ("ca-dir-r", "bad", "P21", [(CS, "Event::readable(1)", "Event::writable(1)")]),
    ("ca-timeout-nocheck", "bad", "P21", [(CS, """        if self.poller.wait(&mut events, *timeout)? == 0 {
            let stop = self.done.load(atomic::Ordering::SeqCst);
            if stop {
                return Err(io::Error::from(io::ErrorKind::NotConnected));
            };
""", """        if self.poller.wait(&mut events, *timeout)? == 0 {
""")]),
    ("ca-check-before", "bad", "P21", [(CS, """            let ready = match self.poller.wait(&mut events, *timeout) {
""", """            let stop = self.done.load(atomic::Ordering::SeqCst);
            let ready = match self.poller.wait(&mut events, *timeout) {
"""), (CS, """            if ready == 0 {
                let stop = self.done.load(atomic::Ordering::SeqCst);
""", """            if ready == 0 {
""")]),
    ("ca-blocking", "bad", "P21", [(CS, "        stream.set_nonblocking(true)?;", "        let _ = stream.set_nonblocking(true);")]),
    ("ca-blocking-set", "bad", "P21", [(TL, "        stream.set_nonblocking(nonblocking)", "        stream.set_nonblocking(nonblocking && stream.nodelay()?)")]),
    ("ca-add-ignored", "bad", "P21", [(CS, "poller.add(stream.as_raw(), Event::all(1))?;", "let _ = poller.add(stream.as_raw(), Event::all(1));")]),
    ("ca-notconn-wrong", "bad", "P21", [(CS, "                Ok(0) if self.done.load(Ordering::SeqCst) => {\n                    Err(io::Error::from(io::ErrorKind::NotConnected))", "                Ok(0) if self.done.load(Ordering::SeqCst) => {\n                    Err(io::Error::from(io::ErrorKind::TimedOut))")]),
    ("ca-same-helper", "same", "P20 P21 P11", [(CS, """        if self.poller.wait(&mut events, *timeout)? == 0 {
            let stop = self.done.load(atomic::Ordering::SeqCst);
            if stop {
                return Err(io::Error::from(io::ErrorKind::NotConnected));
            };
            // TODO: Actually we could be here not only because the timeout
            // passed without read operations available, but also because the
            // OS returned no events spuriously, so we should check ourselves
            // if the timeout period has passed, and if not, retry the wait.
            return Err(io::Error::from(io::ErrorKind::TimedOut));
        }
""", """        if self.poller.wait(&mut events, *timeout)? == 0 {
            return Err(self.no_event());
        }
"""), (CS, """            if ready == 0 {
                let stop = self.done.load(atomic::Ordering::SeqCst);
                if stop {
                    return Err(io::Error::from(io::ErrorKind::NotConnected));
                };
                // TODO: Actually we could be here not only because the timeout
                // passed without the stream being ready to accept writes, but
                // also because the OS returned no events spuriously, so we
                // should check ourselves if the timeout period has passed, and
                // if not, retry the wait.
                return Err(io::Error::from(io::ErrorKind::TimedOut));
            }
""", """            if ready == 0 {
                return Err(self.no_event());
            }
"""), (CS, "    fn write_int(", """    fn no_event(&self) -> io::Error {
        let kind = match self.done.load(Ordering::SeqCst) {
            true => io::ErrorKind::NotConnected,
            false => io::ErrorKind::TimedOut,
        };
        io::Error::from(kind)
    }

    fn write_int(""")]),
    ("ca-same-wait", "same", "P20 P21 P11", [(CS, """        let timeout = &self.read_timeout.write().unwrap().clone();
""", """        let timeout = *self.read_timeout.read().unwrap();
"""), (CS, "self.poller.wait(&mut events, *timeout)? == 0 {\n            let stop", "self.poller.wait(&mut events, timeout)? < 1 {\n            let stop")]),
    # ---- time limits (P11)
    ("to-swap-from", "bad", "P11", [(TS, "            read: read_timeout,\n            write: write_timeout,", "            read: write_timeout,\n            write: read_timeout,")]),
    ("to-swap-conn", "bad", "P11", [(L, "TimeoutStream::from(stream, read_timeout, write_timeout)", "TimeoutStream::from(stream, write_timeout, read_timeout)")]),
    ("to-elapsed-set", "bad", "P11", [(TS, "self.elapsed += started.elapsed();", "self.elapsed = started.elapsed();")]),
    ("to-zero-unchecked", "bad", "P11", [(TS, "        let next_timeout = read.next_timeout();\n        if next_timeout.is_zero() {\n            return Err(io::Error::from(io::ErrorKind::TimedOut));\n        }\n", "        let next_timeout = read.next_timeout().max(Duration::from_millis(1));\n")]),
    ("to-restart", "bad", "P11", [(TS, "            None => {\n                // if there is no current ongoing read operation create a new\n                // one.\n                self.ongoing_read = Some(Operation::from_timeout(timeout));\n                self.ongoing_read.as_mut().unwrap()\n            }\n            Some(operation) => operation,", "            Some(operation) if operation.elapsed > timeout / 2 => operation,\n            _ => {\n                self.ongoing_read = Some(Operation::from_timeout(timeout));\n                self.ongoing_read.as_mut().unwrap()\n            }")]),
    ("to-full-limit", "bad", "P11", [(TS, "if let Err(err) = stream.set_write_timeout(Some(next_timeout)) {", "if let Err(err) = stream.set_write_timeout(Some(timeout)) {")]),
    ("to-none-limit", "bad", "P11", [(TS, "if let Err(err) = stream.set_read_timeout(Some(next_timeout)) {", "if let Err(err) = stream.set_read_timeout(None) {")]),
    ("to-stop-on-ok", "bad", "P11", [(TS, "        write.stop();\n        res", "        if res.is_err() {\n            write.stop();\n        }\n        res")]),
    ("to-map-gone", "bad", "P11", [(TS, """        let res = stream.read(buf).map_err(|err| {
            // REVIEW: In some cases a read operation over a stream returns
            // WouldBlock instead of the expected TimedOut.
            match err.kind() {
                ErrorKind::WouldBlock => io::Error::from(ErrorKind::TimedOut),
                _ => err,
            }
        });""", "        let res = stream.read(buf);")]),
    ("to-cell-swap", "bad", "P11", [(CS, "        let mut write_timeout = self.write_timeout.write().unwrap();\n        *write_timeout = dur;", "        let mut read_timeout = self.read_timeout.write().unwrap();\n        *read_timeout = dur;")]),
    ("to-obs-swap", "bad", "P11", [(OB, "        self.stream.set_write_timeout(dur)", "        self.stream.set_read_timeout(dur)")]),
    ("to-wait-other", "bad", "P11", [(CS, "let timeout = &self.write_timeout.write().unwrap().clone();", "let timeout = &self.read_timeout.write().unwrap().clone();")]),
    ("to-wait-none", "bad", "P11", [(CS, "            let ready = match self.poller.wait(&mut events, *timeout) {", "            let ready = match self.poller.wait(&mut events, timeout.filter(|_| bytes_written == 0)) {")]),
    ("to-resp-untimed", "bad", "P11", [(L, "TimeoutStream::from(resp_stream, read_timeout, write_timeout)", "TimeoutStream::from(resp_stream, read_timeout, None)")]),
    ("to-server-default", "bad", "P11", [(L, "        let addr = None;\n        Server {\n            stop,\n            addr,\n            handle,\n            poller,\n            timeouts,\n        }", "        let addr = None;\n        Server {\n            stop,\n            addr,\n            handle,\n            poller,\n            timeouts: Timeouts {\n                read_request_timeout: timeouts.read_request_timeout,\n                write_response_timeout: timeouts.read_request_timeout,\n            },\n        }")]),
    ("to-same-getorinsert", "same", "P11 P20", [(TS, "            None => {\n                // if there is no current ongoing read operation create a new\n                // one.\n                self.ongoing_read = Some(Operation::from_timeout(timeout));\n                self.ongoing_read.as_mut().unwrap()\n            }\n            Some(operation) => operation,\n        };", "            None => self.ongoing_read.insert(Operation::from_timeout(timeout)),\n            Some(operation) => operation,\n        };")]),
    ("to-same-q", "same", "P11 P20", [(TS, "        if let Err(err) = stream.set_write_timeout(Some(next_timeout)) {\n            return io::Result::Err(err);\n        }", "        stream.set_write_timeout(Some(next_timeout))?;")]),
    ("to-same-get-or", "same", "P11 P20", [(TS, """        let write = match self.ongoing_write.as_mut() {
            None => {
                // If no timeout has set for write, we just pass through to the
                // underlying writer.
                self.ongoing_write = Some(Operation::from_timeout(timeout));
                self.ongoing_write.as_mut().unwrap()
            }
            Some(operation) => operation,
        };""", "        let write = self\n            .ongoing_write\n            .get_or_insert_with(|| Operation::from_timeout(timeout));")]),
    ("to-same-checked", "same", "P11 P20", [(TS, "        self.timeout.saturating_sub(self.elapsed)", "        self.timeout\n            .checked_sub(self.elapsed)\n            .unwrap_or(Duration::ZERO)")]),
    ("to-same-take", "same", "P11 P20", [(TS, "        if let Some(started) = self.started {", "        if let Some(started) = self.started.take() {")]),
    ("to-same-matchres", "same", "P11 P20", [(TS, """        let res = stream.write(buf).map_err(|err| {
            // REVIEW: In some cases a read operation over a stream returns
            // WouldBlock instead of the expected TimedOut.
            match err.kind() {
                ErrorKind::WouldBlock => io::Error::from(ErrorKind::TimedOut),
                _ => err,
            }
        });
        write.stop();
        res""", """        let res = stream.write(buf);
        write.stop();
        match res {
            Err(err) if err.kind() == ErrorKind::WouldBlock => {
                Err(io::Error::from(ErrorKind::TimedOut))
            }
            res => res,
        }""")]),
    # ---- the list of connections (P22)
    ("tr-key", "bad", "P22", [(OB, "        items.insert(key, Arc::downgrade(&stream));", "        let slot = items.len();\n        items.insert(slot.max(key), Arc::downgrade(&stream));")]),
    ("tr-noinsert", "bad", "P22", [(OB, "        items.insert(key, Arc::downgrade(&stream));", "        if items.len() < 1024 {\n            items.insert(key, Arc::downgrade(&stream));\n        }")]),
    ("tr-noremove", "bad", "P22", [(OB, "        items.remove(&key);", "        if items.len() > 1 {\n            items.remove(&key);\n        }")]),
    ("tr-key-reuse", "bad", "P22", [(OB, "list.next_key.fetch_add(1, Ordering::SeqCst)", "list.next_key.load(Ordering::SeqCst)")]),
    ("tr-key-len", "bad", "P22", [(OB, "let key = list.next_key.fetch_add(1, Ordering::SeqCst);", "let key = list.len();")]),
    ("tr-drain-skip", "bad", "P22", [(OB, "items.drain().map(|x| x.1).collect()", "items.drain().map(|x| x.1).skip(1).collect()")]),
    ("tr-drain-filter", "bad", "P22", [(OB, "items.drain().map(|x| x.1).collect()", "items.drain().map(|x| x.1).filter(|x| x.strong_count() > 1).collect()")]),
    ("tr-drop-nothing", "bad", "P22", [(OB, "            parent.dropped(key);", "            let _ = (parent, key);")]),
    ("tr-noparent", "bad", "P22", [(OB, "        stream.parent = Some((key, parent));", "        stream.parent = Some((key + 1, parent));")]),
    ("tr-same-take", "same", "P22 P14", [(OB, "items.drain().map(|x| x.1).collect()", "std::mem::take(&mut *items).into_values().collect()")]),
    ("tr-same-loop", "same", "P22 P14", [(OB, "        items.drain().map(|x| x.1).collect()", "        let mut streams = Vec::with_capacity(items.len());\n        for (_, stream) in items.drain() {\n            streams.push(stream);\n        }\n        streams")]),
    ("tr-same-drop", "same", "P22 P14", [(OB, """        let parent = match &self.parent {
            Some(it) => it,
            _ => return,
        };
        let key = parent.0;
        if let Some(parent) = parent.1.upgrade() {
            parent.dropped(key);
        }""", """        if let Some((key, list)) = self.parent.as_ref() {
            if let Some(list) = list.upgrade() {
                list.items.write().unwrap().remove(key);
            }
        }""")]),
    ("tr-same-track", "same", "P22 P14", [(OB, """        let mut stream = ObservableStream::new(stream);
        let parent = Arc::downgrade(list);
        let key = list.next_key.fetch_add(1, Ordering::SeqCst);
        stream.parent = Some((key, parent));
        let stream = Arc::new(stream);
        let mut items = list.items.write().unwrap();
        items.insert(key, Arc::downgrade(&stream));
""", """        let key = list.next_key.fetch_add(1, Ordering::SeqCst);
        let stream = Arc::new(ObservableStream {
            observed: stream,
            parent: Some((key, Arc::downgrade(list))),
        });
        list.items
            .write()
            .unwrap()
            .insert(key, Arc::downgrade(&stream));
""")]),
]
