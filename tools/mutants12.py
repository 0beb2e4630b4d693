LB = "wruster/src/lib.rs"
SP = "wruster/src/thread_pool/static_pool.rs"
DP = "wruster/src/thread_pool/dynamic_pool.rs"
TP = "wruster/src/thread_pool/mod.rs"
POOLP = "P13 P16 P17 P18 P19"
SRVP = "P09 P10 P11 P12 P13 P14 P15 P21 P22 P25"

RUN_OLD = """        let mut action = match self.workers[self.next].exec(action) {
            Ok(_) => {
                debug!(
                    "run: current worker: {} not busy",
                    self.workers[self.next].id.to_string()
                );
                self.next = (self.next + 1) % self.size;
                return Ok(());
            }
            Err(action) => action,
        };
        let mut from = (self.next + 1) % self.size;
        loop {
            action = match self.workers[from].exec(action) {
                Ok(_) => break,
                Err(action) => action,
            };
            from = (from + 1) % self.size;
            if from == self.next {
                return Err(PoolError { action });
            }
        }
        self.next = from;
        debug!(
            "run: found the worker: {}, that is not busy",
            self.workers[self.next].id.to_string()
        );
        self.next = (self.next + 1) % self.size;
        Ok(())
"""
WORK_OLD = """        let handle = std::thread::spawn(move || loop {
            t_initialized.store(true, Ordering::SeqCst);
            let res = receiver.recv();
            if let Ok(action) = res {
                // A panic in an action must not stop the worker.
                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                }
                debug!("action executed");
                continue;
            }
            debug!("woker: {} stopped", id.to_string());
            break;
        });
"""
EXEC_OLD = """        let sender = self.sender.as_ref().unwrap();
        match sender.try_send(action) {
            Ok(()) => Ok(()),
            Err(err) => match err {
                TrySendError::Full(action) => Err(action),
                TrySendError::Disconnected(action) => Err(action),
            },
        }
"""
DLOOP_OLD = """            loop {
                let res = receiver.recv_timeout(timeout);
                match res {
                    Ok(action) => {
                        run(action);
                        debug!("action executed");
                        continue;
                    }
                    Err(err) => match err {
                        RecvTimeoutError::Timeout => debug!("worker {} timeout", id),
                        RecvTimeoutError::Disconnected => debug!("worker {} disconnected", id),
                    },
                }
                finished();
                debug!("worker {} stopped", id.to_string());
                break;
            }
"""
DRUN_OLD = """        for i in 0..self.max {
            let mut worker = self.workers[i].as_ref().borrow_mut();
            let worker = worker.as_mut();
            action = match worker {
                Some(worker) => match worker.exec(action) {
                    Ok(_) => return Ok(()),
                    Err(action) => action,
                },
                None => action,
            };
        }
        Err(PoolError { action })
"""
FIN_OLD = """        let finished = move || {
            if let Some(free_cells) = free_cells.upgrade() {
                let mut free_cells = free_cells.write().unwrap();
                free_cells.push_back(index);
            }
        };
"""
TPRUN_OLD = """        let mut action = action;
        if let Some(stat) = self.stat.as_mut() {
            action = match stat.run(action) {
                Ok(_) => return Ok(()),
                Err(err) => err.action,
            };
        };
        match self.dynamic.as_mut() {
            Some(dynamic) => dynamic.run(action),
            None => Err(PoolError { action }),
        }
"""
MUTANTS = [
    ("wp-same-run-for", "same", POOLP, [(SP, RUN_OLD, """        let mut action = action;
        for i in 0..self.size {
            let current = (self.next + i) % self.size;
            action = match self.workers[current].exec(action) {
                Ok(_) => {
                    self.next = (current + 1) % self.size;
                    return Ok(());
                }
                Err(action) => action,
            };
        }
        Err(PoolError { action })
""")]),
    ("wp-same-run-iter", "same", POOLP, [(SP, RUN_OLD, """        let mut action = action;
        let start = self.next;
        for (i, worker) in self.workers.iter().enumerate().cycle().skip(start).take(self.size) {
            match worker.exec(action) {
                Ok(_) => {
                    self.next = (i + 1) % self.size;
                    return Ok(());
                }
                Err(back) => action = back,
            };
        }
        Err(PoolError { action })
""")]),
    ("wp-same-exec-maperr", "same", POOLP, [(SP, EXEC_OLD, """        let sender = self.sender.as_ref().unwrap();
        sender.try_send(action).map_err(|err| match err {
            TrySendError::Full(action) | TrySendError::Disconnected(action) => action,
        })
""")]),
    ("wp-same-exec-flat", "same", POOLP, [(DP, EXEC_OLD, """        match self.sender.as_ref() {
            None => Err(action),
            Some(sender) => match sender.try_send(action) {
                Ok(()) => Ok(()),
                Err(TrySendError::Full(action)) => Err(action),
                Err(TrySendError::Disconnected(action)) => Err(action),
            },
        }
""")]),
    ("wp-same-work-fn", "same", POOLP, [(SP, WORK_OLD, """        let handle = std::thread::spawn(move || {
            t_initialized.store(true, Ordering::SeqCst);
            work(id, receiver)
        });
"""), (SP, "impl Drop for Worker {", """fn work(id: usize, receiver: std::sync::mpsc::Receiver<Action>) {
    for action in receiver.iter() {
        // A panic in an action must not stop the worker.
        if let Err(err) = catch_unwind(AssertUnwindSafe(action)) {
            error!("worker: {}, the action panicked: {:?}", id, err.type_id());
        }
        debug!("action executed");
    }
    debug!("woker: {} stopped", id);
}

impl Drop for Worker {"""), (SP, "use std::panic", "use std::any::Any;\nuse std::panic")]),
    ("wp-same-work-match", "same", POOLP, [(SP, WORK_OLD, """        let handle = std::thread::Builder::new()
            .spawn(move || loop {
                t_initialized.store(true, Ordering::SeqCst);
                match receiver.recv() {
                    Err(_) => break,
                    Ok(action) => {
                        let done = catch_unwind(AssertUnwindSafe(move || action()));
                        if done.is_err() {
                            error!("worker: {}, the action panicked", id);
                        }
                    }
                }
            })
            .unwrap();
""")]),
    ("wp-same-drop", "same", POOLP, [(SP, """        drop(self.sender.take());
        let handle = self.handle.take().unwrap();
        handle.join().unwrap();
""", """        self.sender = None;
        if let Some(handle) = self.handle.take() {
            if handle.join().is_err() {
                error!("worker {} failed", self.id);
            }
        }
""")]),
    ("wp-same-new", "same", POOLP, [(SP, """        let mut workers = Vec::with_capacity(size);
        for i in 0..size {
            workers.push(Worker::new(i));
        }
""", """        let workers: Vec<Worker> = (0..size).map(Worker::new).collect();
""")]),
    ("wp-same-dloop", "same", POOLP, [(DP, DLOOP_OLD, """            while let Ok(action) = receiver.recv_timeout(timeout) {
                run(action);
                debug!("action executed");
            }
            finished();
            debug!("worker {} stopped", id);
""")]),
    ("wp-same-dloop2", "same", POOLP, [(DP, DLOOP_OLD, """            loop {
                match receiver.recv_timeout(timeout) {
                    Ok(action) => run(action),
                    Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => break,
                }
            }
            debug!("worker {} stopping", id);
            finished();
""")]),
    ("wp-same-drun-iter", "same", POOLP, [(DP, DRUN_OLD, """        for worker in self.workers.iter() {
            if let Some(worker) = worker.borrow_mut().as_mut() {
                action = match worker.exec(action) {
                    Ok(()) => return Ok(()),
                    Err(action) => action,
                };
            }
        }
        Err(PoolError { action })
""")]),
    ("wp-same-drun-borrow", "same", POOLP, [(DP, DRUN_OLD, """        for cell in &self.workers {
            let worker = cell.borrow();
            match worker.as_ref() {
                None => continue,
                Some(worker) => {
                    if let Err(back) = worker.exec(action) {
                        action = back;
                    } else {
                        return Ok(());
                    }
                }
            }
        }
        Err(PoolError { action })
""")]),
    ("wp-same-fin", "same", POOLP, [(DP, FIN_OLD, """        let finished = move || match free_cells.upgrade() {
            Some(free_cells) => free_cells.write().unwrap().push_back(index),
            None => debug!("the pool is gone"),
        };
""")]),
    ("wp-same-cells", "same", POOLP, [(DP, """        let mut workers: Vec<Arc<AtomicRefCell<DynamicWorkerElem>>> = Vec::with_capacity(max);
        let mut free_cells = VecDeque::new();
        for i in 0..max {
            let elem: Option<DynamicWorker> = None;
            let elem = Arc::new(AtomicRefCell::new(elem));
            workers.push(elem);
            free_cells.push_back(i);
        }
""", """        let workers: Vec<Arc<AtomicRefCell<DynamicWorkerElem>>> =
            (0..max).map(|_| Arc::new(AtomicRefCell::new(None))).collect();
        let free_cells: VecDeque<usize> = (0..max).collect();
""")]),
    ("wp-same-add", "same", POOLP, [(DP, """        let mut free_cells = self.free_cells.write().unwrap();
        let index = match free_cells.pop_front() {
            Some(index) => index,
            None => return Err(action),
        };
""", """        let index = self.free_cells.write().unwrap().pop_front();
        let index = match index {
            Some(index) => index,
            None => return Err(action),
        };
""")]),
    ("wp-same-add-ref", "same", POOLP, [(DP, """        self.workers[index] = Arc::new(AtomicRefCell::new(Some(worker)));
""", """        *self.workers[index].borrow_mut() = Some(worker);
""")]),
    ("wp-same-tprun", "same", POOLP, [(TP, TPRUN_OLD, """        let action = match self.stat.as_mut() {
            None => action,
            Some(stat) => match stat.run(action) {
                Ok(()) => return Ok(()),
                Err(PoolError { action }) => action,
            },
        };
        if let Some(dynamic) = &mut self.dynamic {
            return dynamic.run(action);
        }
        Err(PoolError { action })
""")]),
    ("wp-same-tpnew", "same", POOLP, [(TP, """        let mut stat = None;
        if min > 0 {
            stat = Some(Static::new(min));
        }
        let mut dynamic: Option<Dynamic> = None;
        if min < max {
            dynamic = Some(Dynamic::new(max - min, DEFAULT_TIMEOUT));
        }
""", """        let stat = (min > 0).then(|| Static::new(min));
        let dynamic = max
            .checked_sub(min)
            .filter(|n| *n > 0)
            .map(|n| Dynamic::new(n, DEFAULT_TIMEOUT));
""")]),
    # ---- bad
    ("wp-drop-order", "bad", "P18", [(SP, """        drop(self.sender.take());
        let handle = self.handle.take().unwrap();
        handle.join().unwrap();
""", """        let handle = self.handle.take().unwrap();
        handle.join().unwrap();
        drop(self.sender.take());
""")]),
    ("wp-drop-nojoin", "bad", "P18", [(DP, """        let handle = self.handle.take().unwrap();
        handle.join().unwrap();
        debug!""", """        drop(self.handle.take());
        debug!""")]),
    ("wp-lost-disconnected", "bad", "P16", [(DP, EXEC_OLD, EXEC_OLD.replace("TrySendError::Disconnected(action) => Err(action)", "TrySendError::Disconnected(_) => Ok(())"))]),
    ("wp-lost-full", "bad", "P16", [(SP, EXEC_OLD, """        let sender = self.sender.as_ref().unwrap();
        let _ = sender.try_send(action);
        Ok(())
""")]),
    ("wp-buffered", "bad", "P16", [(DP, "sync_channel::<Action>(0)", "sync_channel::<Action>(1)")]),
    ("wp-fin-early", "bad", "P19", [(DP, """            run(first_action);
            loop {""", """            finished();
            run(first_action);
            loop {"""), (DP, """                finished();
                debug!""", """                debug!""")]),
    ("wp-buffered-static", "bad", "P16", [(SP, "sync_channel::<Action>(0)", "sync_channel::<Action>(1)")]),
    ("wp-static-send", "bad", "P16", [(SP, """        match sender.try_send(action) {
            Ok(()) => Ok(()),
            Err(err) => match err {
                TrySendError::Full(action) => Err(action),
                TrySendError::Disconnected(action) => Err(action),
            },
        }""", "        sender.send(action).map_err(|err| err.0)"), (SP, "SyncSender, TrySendError", "SyncSender")]),
    ("wp-first-lost", "bad", "P16", [(DP, """            run(first_action);
            loop {""", """            if timeout.is_zero() {
                return;
            }
            run(first_action);
            loop {""")]),
    ("wp-no-catch-dyn", "bad", "P17", [(DP, """                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id);
                }
""", """                action();
                debug!("worker: {}, action done {:?}", id, catch_unwind(AssertUnwindSafe(|| ())).is_ok());
""")]),
    ("wp-resume", "bad", "P17", [(SP, """                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                }
""", """                if let Err(err) = catch_unwind(AssertUnwindSafe(action)) {
                    error!("worker: {}, the action panicked", id.to_string());
                    std::panic::resume_unwind(err);
                }
""")]),
    ("wp-break-on-panic", "bad", "P17", [(SP, """                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                }
""", """                if catch_unwind(AssertUnwindSafe(action)).is_err() {
                    error!("worker: {}, the action panicked", id.to_string());
                    break;
                }
""")]),
    ("wp-return-on-panic-dyn", "bad", "P17 P19", [(DP, """                    Ok(action) => {
                        run(action);
""", """                    Ok(action) => {
                        if catch_unwind(AssertUnwindSafe(action)).is_err() {
                            return;
                        }
""")]),
    ("wp-max-more", "bad", "P19", [(TP, "Dynamic::new(max - min, ", "Dynamic::new(max, ")]),
    ("wp-spawn-fallback", "bad", "P19", [(TP, "            None => Err(PoolError { action }),\n        }\n    }\n}", "            None => {\n                std::thread::spawn(action);\n                Ok(())\n            }\n        }\n    }\n}")]),
]
