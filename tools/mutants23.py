"""the server's life and the worker pool, again"""
START = "        if self.poller.is_some() {\n            return Err"
REG = """        let poller = polling::Poller::new()?;
        poller.add(&listener, Event::readable(1))?;
        let poller = Arc::new(poller);
        let epoller = Arc::clone(&poller);
        self.poller = Some(poller);
"""
BIND = """        let listener = match net::TcpListener::bind(addr) {
            Ok(listener) => listener,
            Err(err) => return Err(Box::new(err)),
        };
"""
NOTST = """        let handle = match self.handle {
            None => {
                let err = Box::new(Error::new(ErrorKind::Other, "server not started"));
                return Err(err);
            }
            Some(handle) => handle,
        };
"""
DROPW = """        drop(self.sender.take());
        let handle = self.handle.take().unwrap();
        handle.join().unwrap();
"""
LOOPS = """            if let Ok(action) = res {
                // A panic in an action must not stop the worker.
                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                }
                debug!("action executed");
                continue;
            }
"""
BUSY = "                if pool.run(Box::new(action)).is_err() {"
RUNS = """                    Ok(action) => {
                        run(action);
                        debug!("action executed");
                        continue;
                    }
"""
SEARCH = """        let mut from = (self.next + 1) % self.size;
        loop {
            action = match self.workers[from].exec(action) {
                Ok(_) => break,
                Err(action) => action,
            };
            from = (from + 1) % self.size;
            if from == self.next {
                return Err(PoolError { action });
            }
        }
"""
TRY = """        match sender.try_send(action) {
            Ok(()) => Ok(()),
            Err(err) => match err {
                TrySendError::Full(action) => Err(action),
                TrySendError::Disconnected(action) => Err(action),
            },
        }
"""
MUTANTS = [
    ("po-addr-guard", "same", "P15 P12 P14", [(L, START, "        if self.addr.is_some() {\n            return Err")]),
    ("po-early-poller", "bad", "P15", [(L, REG, """        let poller = Arc::new(polling::Poller::new()?);
        self.poller = Some(Arc::clone(&poller));
        let epoller = Arc::clone(&poller);
        poller.add(&listener, Event::readable(1))?;
""")]),
    ("po-late-poller", "same", "P15 P12 P14", [(L, REG, """        let epoller = Arc::new(polling::Poller::new()?);
        epoller.add(&listener, Event::readable(1))?;
        self.poller = Some(Arc::clone(&epoller));
""")]),
    ("po-bind-other", "bad", "P15", [(L, BIND, """        let listener = match net::TcpListener::bind(addr) {
            Ok(listener) => listener,
            Err(err) if err.kind() == ErrorKind::AddrInUse => net::TcpListener::bind("127.0.0.1:0")?,
            Err(err) => return Err(Box::new(err)),
        };
""")]),
    ("po-bind-ok", "bad", "P15", [(L, BIND, """        let listener = match net::TcpListener::bind(addr) {
            Ok(listener) => listener,
            Err(err) if err.kind() == ErrorKind::AddrInUse => return Ok(()),
            Err(err) => return Err(Box::new(err)),
        };
""")]),
    ("po-bind-q", "same", "P15 P12 P14", [(L, BIND, "        let listener = net::TcpListener::bind(addr)?;\n")]),
    ("po-shut-ok", "bad", "P15", [(L, NOTST, "        let handle = match self.handle {\n            None => return Ok(()),\n            Some(handle) => handle,\n        };\n")]),
    ("po-shut-else", "same", "P15 P14", [(L, NOTST, "        let Some(handle) = self.handle else {\n            let err = Error::new(ErrorKind::Other, \"server not started\");\n            return Err(Box::new(err));\n        };\n")]),
    ("po-restart", "bad", "P15", [(L, START, "        if self.handle.as_ref().map_or(false, |handle| !handle.is_finished()) {\n            return Err")]),
    ("po-wait-ok", "bad", "P15", [(L, "        if self.handle.is_none() {\n            let err = Box::new(Error::new(ErrorKind::Other, \"server not started\"));\n            return Err(err);\n        }", "        if self.handle.is_none() {\n            if self.poller.is_none() {\n                return Ok(());\n            }\n            let err = Box::new(Error::new(ErrorKind::Other, \"server not started\"));\n            return Err(err);\n        }")]),
    ("po-drop-fin", "bad", "P18", [(SP, DROPW, """        drop(self.sender.take());
        let handle = self.handle.take().unwrap();
        if handle.is_finished() {
            handle.join().unwrap();
        }
""")]),
    ("po-drop-iflet", "same", "P18 P16 P17", [(SP, DROPW, """        self.sender = None;
        if let Some(handle) = self.handle.take() {
            handle.join().unwrap();
        }
""")]),
    ("po-drop-take", "same", "P18 P16 P17", [(SP, DROPW, """        if let Some(sender) = self.sender.take() {
            drop(sender);
        }
        let handle = self.handle.take();
        handle.unwrap().join().unwrap();
""")]),
    ("po-drop-noclose", "bad", "P18", [(SP, DROPW, """        let sender = self.sender.take();
        let handle = self.handle.take().unwrap();
        handle.join().unwrap();
        drop(sender);
""")]),
    ("po-forget", "bad", "P18", [(DP, "        self.workers[index] = Arc::new(AtomicRefCell::new(Some(worker)));", "        let cell = Arc::new(AtomicRefCell::new(Some(worker)));\n        std::mem::forget(Arc::clone(&cell));\n        self.workers[index] = cell;")]),
    ("po-detach", "bad", "P18", [(SP, "        Worker {\n            id,\n            handle: Some(handle),", "        drop(handle);\n        let handle = std::thread::spawn(|| ());\n        Worker {\n            id,\n            handle: Some(handle),")]),
    ("po-panic-break", "bad", "P17", [(SP, """                    error!("worker: {}, the action panicked", id.to_string());
                }
""", """                    error!("worker: {}, the action panicked", id.to_string());
                    break;
                }
""")]),
    ("po-panic-resume", "bad", "P17", [(SP, """                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                }
""", """                if let Err(err) = catch_unwind(AssertUnwindSafe(action)) {
                    error!("worker: {}, the action panicked", id.to_string());
                    if !err.is::<&str>() && !err.is::<String>() {
                        std::panic::resume_unwind(err);
                    }
                }
""")]),
    ("po-panic-match", "same", "P16 P17 P18 P19", [(SP, LOOPS, """            if let Ok(action) = res {
                match catch_unwind(AssertUnwindSafe(action)) {
                    Ok(()) => debug!("action executed"),
                    Err(_) => error!("worker: {}, the action panicked", id.to_string()),
                }
                continue;
            }
""")]),
    ("po-while-let", "same", "P16 P17 P18 P19", [(SP, """        let handle = std::thread::spawn(move || loop {
            t_initialized.store(true, Ordering::SeqCst);
            let res = receiver.recv();
""" + LOOPS + """            debug!("woker: {} stopped", id.to_string());
            break;
        });
""", """        let handle = std::thread::spawn(move || {
            t_initialized.store(true, Ordering::SeqCst);
            while let Ok(action) = receiver.recv() {
                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                }
                debug!("action executed");
            }
            debug!("woker: {} stopped", id.to_string());
        });
""")]),
    ("po-for-recv", "same", "P16 P17 P18 P19", [(SP, """        let handle = std::thread::spawn(move || loop {
            t_initialized.store(true, Ordering::SeqCst);
            let res = receiver.recv();
""" + LOOPS + """            debug!("woker: {} stopped", id.to_string());
            break;
        });
""", """        let handle = std::thread::spawn(move || {
            t_initialized.store(true, Ordering::SeqCst);
            for action in receiver {
                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                }
                debug!("action executed");
            }
            debug!("woker: {} stopped", id.to_string());
        });
""")]),
    ("po-while-err", "bad", "P16 P17", [(SP, LOOPS, """            if let Ok(action) = res {
                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                    let _ = receiver.try_recv();
                }
                debug!("action executed");
                continue;
            }
""")]),
    ("po-dyn-panic", "bad", "P17 P19", [(DP, """                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id);
                }
            };
            run(first_action);
            loop {
""", """                let panicked = catch_unwind(AssertUnwindSafe(action)).is_err();
                if panicked {
                    error!("worker: {}, the action panicked", id);
                }
                panicked
            };
            if run(first_action) {
                return;
            }
            loop {
""")]),
    ("po-dyn-panic2", "bad", "P17 P19", [(DP, """                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id);
                }
            };
            run(first_action);
""", """                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id);
                }
            };
            first_action();
""")]),
    ("po-dyn-fin-twice", "bad", "P16", [(DP, "                        RecvTimeoutError::Timeout => debug!(\"worker {} timeout\", id),\n", "                        RecvTimeoutError::Timeout if receiver.try_recv().is_ok() => continue,\n                        RecvTimeoutError::Timeout => debug!(\"worker {} timeout\", id),\n")]),
    ("po-dyn-early", "bad", "P19", [(DP, "type DynamicWorkerFinished = Box<dyn FnOnce() + Send>;", "type DynamicWorkerFinished = Box<dyn Fn() + Send>;"), (DP, "            run(first_action);\n            loop {", "            run(first_action);\n            finished();\n            loop {"), (DP, "                finished();\n                debug!(\"worker {} stopped\"", "                debug!(\"worker {} stopped\"")]),
    ("po-max", "bad", "P19", [(TP, "Dynamic::new(max - min, DEFAULT_TIMEOUT)", "Dynamic::new(max, DEFAULT_TIMEOUT)")]),
    ("po-max-eq", "same", "P19 P16", [(TP, """        let mut dynamic: Option<Dynamic> = None;
        if min < max {
            dynamic = Some(Dynamic::new(max - min, DEFAULT_TIMEOUT));
        }
""", """        let dynamic = match max.checked_sub(min) {
            Some(extra) if extra > 0 => Some(Dynamic::new(extra, DEFAULT_TIMEOUT)),
            _ => None,
        };
""")]),
    ("po-max-then", "same", "P19 P16", [(TP, """        let mut dynamic: Option<Dynamic> = None;
        if min < max {
            dynamic = Some(Dynamic::new(max - min, DEFAULT_TIMEOUT));
        }
""", """        let dynamic = (min < max).then(|| Dynamic::new(max - min, DEFAULT_TIMEOUT));
""")]),
    ("po-min1", "bad", "P19", [(TP, "            stat = Some(Static::new(min));", "            stat = Some(Static::new(min.next_power_of_two()));")]),
    ("po-cells", "bad", "P19", [(DP, "        let free_cells = Arc::new(RwLock::new(free_cells));\n        Dynamic {", "        if max > 1 {\n            free_cells.push_back(0);\n        }\n        let free_cells = Arc::new(RwLock::new(free_cells));\n        Dynamic {")]),
    ("po-cells-collect", "same", "P19 P16", [(DP, """        let mut free_cells = VecDeque::new();
        for i in 0..max {
            let elem: Option<DynamicWorker> = None;
            let elem = Arc::new(AtomicRefCell::new(elem));
            workers.push(elem);
            free_cells.push_back(i);
        }
""", """        let free_cells: VecDeque<usize> = (0..max).collect();
        for _ in 0..max {
            workers.push(Arc::new(AtomicRefCell::new(None)));
        }
""")]),
    ("po-queue1", "bad", "P16", [(SP, "sync_channel::<Action>(0)", "sync_channel::<Action>(1)")]),
    ("po-send", "bad", "P16", [(DP, TRY, "        sender.send(action).map_err(|err| err.0)\n")]),
    ("po-disc", "bad", "P16", [(SP, TRY, """        match sender.try_send(action) {
            Ok(()) => Ok(()),
            Err(TrySendError::Full(action)) => Err(action),
            Err(TrySendError::Disconnected(_)) => Ok(()),
        }
""")]),
    ("po-or", "same", "P16 P17", [(SP, TRY, """        sender.try_send(action).map_err(|err| match err {
            TrySendError::Full(action) | TrySendError::Disconnected(action) => action,
        })
""")]),
    ("po-noop", "bad", "P16", [(SP, TRY, """        match sender.try_send(action) {
            Ok(()) => Ok(()),
            Err(TrySendError::Full(action)) => Err(action),
            Err(TrySendError::Disconnected(_)) => Err(Box::new(|| ())),
        }
""")]),
    ("po-search-iter", "bad", "P16", [(SP, SEARCH, """        let mut from = (self.next + 1) % self.size;
        while from != self.next {
            action = match self.workers[from].exec(action) {
                Ok(_) => break,
                Err(_) => return Ok(()),
            };
            from = (from + 1) % self.size;
        }
""")]),
    ("po-inline", "bad", "P16", [(TP, "            None => Err(PoolError { action }),", "            None => {\n                action();\n                Ok(())\n            }")]),
    ("po-both", "bad", "P16 P19", [(TP, "            Some(dynamic) => dynamic.run(action),", "            Some(dynamic) => dynamic.run(action).or_else(|err| {\n                std::thread::spawn(err.action);\n                Ok(())\n            }),")]),
    ("po-forget-conn", "bad", "P13", [(L, "                let action_stream = ObservedStreamList::track(&active_streams, action_stream);\n", "                if active_streams.len() >= 1000 {\n                    continue;\n                }\n                let action_stream = ObservedStreamList::track(&active_streams, action_stream);\n")]),
    ("po-close-ok", "bad", "P13", [(L, BUSY, "                if pool.run(Box::new(action)).is_ok() {\n                    if events.len() > 64 {\n                        let _ = local_action_stream.shutdown(net::Shutdown::Read);\n                    }\n                } else {")]),
    ("po-busy-match", "same", "P13 P12 P14", [(L, BUSY, "                let refused = matches!(pool.run(Box::new(action)), Err(_));\n                if refused {")]),
    ("po-busy-let", "same", "P13 P12 P14", [(L, BUSY, "                if let Err(_refused) = pool.run(Box::new(action)) {")]),
    ("po-busy-write", "bad", "P13", [(L, "    let s = &*shutdown_stream;\n    if let Err(err) = s.shutdown(net::Shutdown::Both) {", "    let s = &*shutdown_stream;\n    if let Err(err) = s.shutdown(net::Shutdown::Write) {")]),
    ("po-busy-ret", "bad", "P13", [(L, "        error!(\"sending too busy to {}: {}\", src_addr, err.to_string())\n", "        error!(\"sending too busy to {}: {}\", src_addr, err.to_string());\n        return;\n")]),
    ("po-busy-500", "bad", "P13", [(L, "Response::from_status(StatusCode::ServiceUnavailable)", "Response::from_status(StatusCode::GatewayTimeOut)")]),
    ("po-twice", "bad", "P10", [(L, "                let action = move || {\n                    handle_conversation(action_stream, cconfig, action_timeouts.clone(), src_addr);", "                let action = move || {\n                    handle_conversation(action_stream.clone(), cconfig.clone(), action_timeouts.clone(), src_addr);\n                    handle_conversation(action_stream, cconfig, action_timeouts.clone(), src_addr);")]),
    ("po-forget-conn2", "bad", "P22", [(L, "                let local_action_stream = action_stream.clone();\n", "                let local_action_stream = action_stream.clone();\n                let local_action_stream = std::mem::ManuallyDrop::new(local_action_stream);\n"), (L, "                    handle_busy(local_action_stream, timeouts.clone(), src_addr);", "                    handle_busy(std::mem::ManuallyDrop::into_inner(local_action_stream), timeouts.clone(), src_addr);")]),
    ("po-leak", "bad", "P22", [(L, "                let action_stream = ObservedStreamList::track(&active_streams, action_stream);\n", "                let action_stream = ObservedStreamList::track(&active_streams, action_stream);\n                if events.len() > 8 {\n                    Box::leak(Box::new(action_stream.clone()));\n                }\n")]),
]
