"""waiting"""
CP = "wruster/src/http/client/connection_pool.rs"
PARK = "            thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);\n"
WH = "        while !stop.load(Ordering::Acquire) {\n            let mut"
INIT = "        while !initialized.load(Ordering::SeqCst) {\n            thread::yield_now();\n        }\n"
RECV = "            let res = receiver.recv();\n"
DRECV = "                let res = receiver.recv_timeout(timeout);\n"
WAITS = "            if let Err(err) = epoller.wait(&mut events, None) {\n"
MUTANTS = [
    ("sp-nopark", "bad", "P37", [(CP, PARK, "")]),
    ("sp-park-some", "bad", "P37", [(CP, PARK, "            if now.elapsed() > EXPIRE_RESOURCE_CYCLE_TIME {\n                thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);\n            }\n")]),
    ("sp-until", "bad", "P37", [(CP, PARK, "            let until = now + EXPIRE_RESOURCE_CYCLE_TIME;\n            while Instant::now() < until && !stop.load(Ordering::Acquire) {}\n")]),
    ("sp-until-sleep", "same", "P37", [(CP, PARK, "            let until = now + EXPIRE_RESOURCE_CYCLE_TIME;\n            while Instant::now() < until && !stop.load(Ordering::Acquire) {\n                thread::sleep(Duration::from_millis(10));\n            }\n")]),
    ("sp-helper", "same", "P37", [(CP, PARK, "            Self::pause();\n"), (CP, "    fn expire_connections(\n", "    fn pause() {\n        thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);\n    }\n\n    fn expire_connections(\n")]),
    ("sp-helper-no", "bad", "P37", [(CP, PARK, "            Self::pause(now);\n"), (CP, "    fn expire_connections(\n", "    fn pause(since: Instant) {\n        while since.elapsed() < EXPIRE_RESOURCE_CYCLE_TIME {}\n    }\n\n    fn expire_connections(\n")]),
    ("sp-loop", "same", "P37", [(CP, WH, "        loop {\n            if stop.load(Ordering::Acquire) {\n                break;\n            }\n            let mut")]),
    ("sp-continue", "bad", "P37", [(CP, WH, "        while !stop.load(Ordering::Acquire) {\n            if resources.read().unwrap().is_empty() {\n                continue;\n            }\n            let mut")]),
    ("sp-retain", "same", "P37", [(CP, "            for (addr, conn) in conns {\n", "            for conn in conns {\n                let (addr, conn) = conn;\n")]),
    ("sp-drain-loop", "same", "P37", [(CP, "            let conns: Vec<(String, PoolResource<T>)> = resources.drain().collect();\n            for (addr, conn) in conns {\n", "            let mut conns: Vec<(String, PoolResource<T>)> = resources.drain().collect();\n            while let Some((addr, conn)) = conns.pop() {\n")]),
    ("sp-init", "bad", "P37", [(SP, INIT, "        while !initialized.load(Ordering::SeqCst) {}\n")]),
    ("sp-init-loop", "same", "P37", [(SP, INIT, "        loop {\n            if initialized.load(Ordering::SeqCst) {\n                break;\n            }\n            thread::yield_now();\n        }\n")]),
    ("sp-try", "bad", "P37", [(SP, RECV, "            let res = match receiver.try_recv() {\n                Err(std::sync::mpsc::TryRecvError::Empty) => continue,\n                res => res,\n            };\n")]),
    ("sp-recv", "same", "P37", [(SP, RECV, "            let res = match receiver.recv() {\n                Ok(action) => Ok(action),\n                Err(err) => Err(err),\n            };\n")]),
    ("sp-dtry", "bad", "P37", [(DP, DRECV, "                let started = std::time::Instant::now();\n                let res = loop {\n                    match receiver.try_recv() {\n                        Ok(action) => break Ok(action),\n                        Err(std::sync::mpsc::TryRecvError::Disconnected) => break Err(RecvTimeoutError::Disconnected),\n                        Err(_) if started.elapsed() >= timeout => break Err(RecvTimeoutError::Timeout),\n                        Err(_) => {}\n                    }\n                };\n")]),
    ("sp-dspin", "same", "P37", [(DP, DRECV, "                let mut res = Err(RecvTimeoutError::Timeout);\n                for _ in 0..10 {\n                    res = receiver.recv_timeout(timeout / 10);\n                    if !matches!(res, Err(RecvTimeoutError::Timeout)) {\n                        break;\n                    }\n                }\n")]),
    ("sp-accept-first", "bad", "P37", [(L, WAITS, "            if active_streams.len() > 4096 && !stop.as_ref().load(Ordering::SeqCst) {\n                continue;\n            }\n" + WAITS)]),
    ("sp-accept-sleep", "same", "P37", [(L, WAITS, "            if active_streams.len() > 4096 && !stop.as_ref().load(Ordering::SeqCst) {\n                thread::sleep(std::time::Duration::from_millis(1));\n                continue;\n            }\n" + WAITS)]),
    ("sp-static-busy", "bad", "P37", [(SP, "        let mut from = (self.next + 1) % self.size;\n", "        let busy = AtomicBool::new(false);\n        while busy.load(Ordering::SeqCst) {}\n        let mut from = (self.next + 1) % self.size;\n")]),
    ("sp-zero", "bad", "P37", [(CP, PARK, "            thread::park_timeout(Duration::from_millis(0));\n")]),
    ("sp-zero2", "bad", "P37", [(CP, PARK, "            thread::park_timeout(Duration::ZERO);\n")]),
    ("sp-accept-zero", "bad", "P37", [(L, WAITS, "            if let Err(err) = epoller.wait(&mut events, Some(std::time::Duration::from_secs(0))) {\n")]),
    ("sp-accept-some", "same", "P37", [(L, WAITS, "            if let Err(err) = epoller.wait(&mut events, Some(std::time::Duration::from_secs(10))) {\n")]),
]
