# P28: the client's connection pool
CP = "wruster/src/http/client/connection_pool.rs"
CM = "wruster/src/http/client/mod.rs"
LRU = """        let conns: Vec<(String, PoolResource<T>)> = connections.drain().collect();
        let mut least_used_addr: String = "".into();
        let mut least_used_conn_time: Option<Instant> = None;
        for (addr, conn) in conns {
            match least_used_conn_time {
                Some(last_used) => {
                    if conn.last_used < last_used {
                        least_used_addr = addr.to_string();
                        least_used_conn_time = Some(conn.last_used);
                    }
                }
                None => {
                    least_used_addr = addr.to_string();
                    least_used_conn_time = Some(conn.last_used);
                }
            };
            connections.insert(addr, conn);
        }
        match connections.remove(&least_used_addr) {
            Some(_) => (),
            None => unreachable!(),
        }
"""
EXP = """            let now = Instant::now();
            let conns: Vec<(String, PoolResource<T>)> = resources.drain().collect();
            for (addr, conn) in conns {
                if now - conn.last_used < idle_timeout {
                    resources.insert(addr, conn);
                }
            }
            drop(resources);
"""
INS = """        if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {
            Self::remove_lru(connections);
        }
        connections.insert(key.to_string(), connection);
"""
GET = """        let mut resources = self.resources.write().unwrap();
        resources.remove(key)
"""
DRAIN = """        let d = resources.drain();
        d.map(|(_, resource)| resource)
            .collect::<Vec<PoolResource<T>>>()
"""
DROP = """        stop_worker.store(true, Ordering::Release);
        let handle = &mut self.expire_worker_handle;
        let handle = handle.take().unwrap();
        handle.thread().unpark();
        handle.join().unwrap();
"""
SPAWN = """        let expire_worker_handle = thread::spawn(move || {
            Self::expire_connections(idle_timeout, expire_worker_resources, expire_worker_stop2);
        });
"""
CDROP = """        for connection in connections {
            let connection = connection.resource();
            _ = connection.shutdown(std::net::Shutdown::Both)
        }
"""
MUTANTS = [
    # --- behaviour kept
    ("cp-same-retain", "same", "P28", [(CP, EXP, """            let now = Instant::now();
            resources.retain(|_, conn| now - conn.last_used < idle_timeout);
            drop(resources);
""")]),
    ("cp-same-minby", "same", "P28", [(CP, LRU, """        let least = connections
            .iter()
            .min_by_key(|(_, conn)| conn.last_used)
            .map(|(addr, _)| addr.to_string());
        if let Some(addr) = least {
            connections.remove(&addr);
        }
""")]),
    ("cp-same-minby2", "same", "P28", [(CP, LRU, """        let least = connections
            .iter()
            .min_by(|(_, a), (_, b)| a.last_used.cmp(&b.last_used))
            .map(|(addr, _)| addr.clone());
        match least {
            Some(addr) => {
                connections.remove(&addr);
            }
            None => unreachable!(),
        }
""")]),
    ("cp-same-iter", "same", "P28", [(CP, LRU, """        let mut least: Option<(&String, Instant)> = None;
        for (addr, conn) in connections.iter() {
            let better = match least {
                Some((_, t)) => conn.last_used < t,
                None => true,
            };
            if better {
                least = Some((addr, conn.last_used));
            }
        }
        let addr = least.map(|(a, _)| a.to_string()).unwrap();
        connections.remove(&addr);
""")]),
    ("cp-same-iflet", "same", "P28", [(CP, LRU, """        let mut least_used_addr = String::new();
        let mut least_used_conn_time: Option<Instant> = None;
        for (addr, conn) in connections.iter() {
            if let Some(last_used) = least_used_conn_time {
                if conn.last_used >= last_used {
                    continue;
                }
            }
            least_used_addr = addr.clone();
            least_used_conn_time = Some(conn.last_used);
        }
        connections.remove(&least_used_addr);
""")]),
    ("cp-same-get-match", "same", "P28", [(CP, GET, """        let mut resources = self.resources.write().unwrap();
        match resources.remove(key) {
            Some(resource) => Some(resource),
            None => None,
        }
""")]),
    ("cp-same-get-if", "same", "P28", [(CP, GET, """        let mut resources = self.resources.write().unwrap();
        if !resources.contains_key(key) {
            return None;
        }
        resources.remove(key)
""")]),
    ("cp-same-get-entry", "same", "P28", [(CP, GET, """        let mut resources = self.resources.write().unwrap();
        resources.remove_entry(key).map(|(_, resource)| resource)
""")]),
    ("cp-same-ins-order", "same", "P28", [(CP, INS, """        if !connections.contains_key(key) && connections.len() >= MAX_RESOURCES {
            Self::remove_lru(connections);
        }
        let key = key.to_owned();
        let _ = connections.insert(key, connection);
""")]),
    ("cp-same-ins-else", "same", "P28", [(CP, INS, """        let known = connections.contains_key(key);
        let full = connections.len() == MAX_RESOURCES;
        if full && !known {
            Self::remove_lru(connections);
        }
        connections.insert(String::from(key), connection);
"""), (CP, "const MAX_RESOURCES: usize = 100;", "const MAX_RESOURCES: usize = 100;\n")]),
    ("cp-same-drain-loop", "same", "P28", [(CP, DRAIN, """        let mut all = Vec::new();
        for (_, resource) in resources.drain() {
            all.push(resource);
        }
        all
""")]),
    ("cp-same-drain-take", "same", "P28", [(CP, DRAIN, """        std::mem::take(&mut *resources).into_values().collect()
""")]),
    ("cp-same-expire-loop", "same", "P28", [(CP, """        while !stop.load(Ordering::Acquire) {
            let mut""", """        loop {
            if stop.load(Ordering::Acquire) {
                break;
            }
            let mut""")]),
    ("cp-same-expire-gt", "same", "P28", [(CP, "                if now - conn.last_used < idle_timeout {\n                    resources.insert(addr, conn);\n                }\n",
        "                let idle = now.duration_since(conn.last_used);\n                if idle >= idle_timeout {\n                    continue;\n                }\n                resources.insert(addr, conn);\n")]),
    ("cp-same-expire-elapsed", "same", "P28", [(CP, "now - conn.last_used < idle_timeout", "conn.last_used.elapsed() < idle_timeout"), (CP, "            let now = Instant::now();\n            let conns", "            let conns")]),
    ("cp-same-expire-block", "same", "P28", [(CP, "            let mut resources = resources.write().unwrap();\n" + EXP, """            {
                let mut resources = resources.write().unwrap();
                let now = Instant::now();
                let conns: Vec<(String, PoolResource<T>)> = resources.drain().collect();
                for (addr, conn) in conns {
                    if now - conn.last_used < idle_timeout {
                        resources.insert(addr, conn);
                    }
                }
            }
""")]),
    ("cp-same-drop", "same", "P28", [(CP, DROP, """        stop_worker.store(true, Ordering::SeqCst);
        if let Some(handle) = self.expire_worker_handle.take() {
            handle.thread().unpark();
            let _ = handle.join();
        }
""")]),
    ("cp-same-spawn", "same", "P28", [(CP, "            Some(timeout) => timeout,\n            None => DEFAULT_IDLE_RESOURCE_TIMEOUT,\n        };", "            Some(t) => t,\n            None => DEFAULT_IDLE_RESOURCE_TIMEOUT,\n        };\n        debug_assert!(true);")]),
    ("cp-same-unwrap-or", "same", "P28", [(CP, """        let idle_timeout = match idle_timeout {
            Some(timeout) => timeout,
            None => DEFAULT_IDLE_RESOURCE_TIMEOUT,
        };
""", """        let idle_timeout = idle_timeout.unwrap_or(DEFAULT_IDLE_RESOURCE_TIMEOUT);
""")]),
    ("cp-same-cdrop", "same", "P28", [(CM, CDROP, """        connections.into_iter().for_each(|resource| {
            let connection = resource.resource();
            if connection.shutdown(std::net::Shutdown::Both).is_err() {}
        });
""")]),
    # --- broken
    ("cp-lru-most", "bad", "P28", [(CP, "if conn.last_used < last_used {", "if conn.last_used > last_used {")]),
    ("cp-lru-key-only", "bad", "P28", [(CP, "                    if conn.last_used < last_used {\n                        least_used_addr = addr.to_string();\n                        least_used_conn_time = Some(conn.last_used);", "                    if conn.last_used < last_used {\n                        least_used_addr = addr.to_string();")]),
    ("cp-lru-time-only", "bad", "P28", [(CP, "                    if conn.last_used < last_used {\n                        least_used_addr = addr.to_string();\n                        least_used_conn_time = Some(conn.last_used);", "                    least_used_addr = addr.to_string();\n                    if conn.last_used < last_used {\n                        least_used_conn_time = Some(conn.last_used);")]),
    ("cp-lru-first", "bad", "P28", [(CP, "                    if conn.last_used < last_used {\n                        least_used_addr = addr.to_string();\n                        least_used_conn_time = Some(conn.last_used);\n                    }", "                    let _ = last_used;")]),
    ("cp-lru-lose", "bad", "P28", [(CP, "                    least_used_conn_time = Some(conn.last_used);\n                }\n            };\n", "                    least_used_conn_time = Some(conn.last_used);\n                    continue;\n                }\n            };\n"), (CP, "            Some(_) => (),\n            None => unreachable!(),", "            Some(_) => (),\n            None => (),")]),
    ("cp-lru-keep", "bad", "P28", [(CP, "        match connections.remove(&least_used_addr) {", "        match connections.get(&least_used_addr) {")]),
    ("cp-lru-clear", "bad", "P28", [(CP, "            connections.insert(addr, conn);\n        }\n        match connections.remove(&least_used_addr) {\n            Some(_) => (),\n            None => unreachable!(),\n        }", "        }\n        let _ = least_used_addr;")]),
    ("cp-lru-minby-max", "bad", "P28", [(CP, LRU, """        let least = connections
            .iter()
            .max_by_key(|(_, conn)| conn.last_used)
            .map(|(addr, _)| addr.to_string());
        if let Some(addr) = least {
            connections.remove(&addr);
        }
""")]),
    ("cp-lru-minby-name", "bad", "P28", [(CP, LRU, """        let least = connections
            .keys()
            .min()
            .map(|addr| addr.to_string());
        if let Some(addr) = least {
            connections.remove(&addr);
        }
""")]),
    ("cp-lru-any", "bad", "P28", [(CP, LRU, """        let any = connections.keys().next().cloned();
        if let Some(addr) = any {
            connections.remove(&addr);
        }
""")]),
    ("cp-ins-always", "bad", "P28", [(CP, "if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {", "if connections.len() >= MAX_RESOURCES {")]),
    ("cp-ins-any", "bad", "P28", [(CP, "if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {", "if !connections.is_empty() && !connections.contains_key(key) {")]),
    ("cp-ins-over", "bad", "P28", [(CP, "connections.len() >= MAX_RESOURCES &&", "connections.len() > MAX_RESOURCES &&")]),
    ("cp-ins-or", "bad", "P28", [(CP, "connections.len() >= MAX_RESOURCES && !connections.contains_key(key)", "connections.len() >= MAX_RESOURCES && connections.contains_key(key)")]),
    ("cp-ins-unbounded", "bad", "P28", [(CP, "        if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {\n            Self::remove_lru(connections);\n        }\n", "        if false {\n            Self::remove_lru(connections);\n        }\n")]),
    ("cp-ins-old", "bad", "P28", [(CP, "        connections.insert(key.to_string(), connection);", "        connections.entry(key.to_string()).or_insert(connection);")]),
    ("cp-ins-skip", "bad", "P28", [(CP, "            Self::remove_lru(connections);\n        }\n        connections.insert(key", "            Self::remove_lru(connections);\n            return;\n        }\n        connections.insert(key")]),
    ("cp-ins-key", "bad", "P28", [(CP, "connections.insert(key.to_string(), connection);", "connections.insert(key.to_lowercase(), connection);")]),
    ("cp-get-key", "bad", "P28", [(CP, "        resources.remove(key)\n", "        resources.remove(key.trim_end_matches(\":80\"))\n")]),
    ("cp-get-any", "bad", "P28", [(CP, "        resources.remove(key)\n", "        match resources.remove(key) {\n            Some(r) => Some(r),\n            None => {\n                let k = resources.keys().next().cloned()?;\n                resources.remove(&k)\n            }\n        }\n")]),
    ("cp-get-drop", "bad", "P28", [(CP, "        resources.remove(key)\n", "        let r = resources.remove(key)?;\n        if resources.len() > 10 {\n            return None;\n        }\n        Some(r)\n")]),
    ("cp-get-clear", "bad", "P28", [(CP, "        resources.remove(key)\n", "        let r = resources.remove(key);\n        if r.is_none() {\n            resources.clear();\n        }\n        r\n")]),
    ("cp-drain-half", "bad", "P28", [(CP, "        d.map(|(_, resource)| resource)\n", "        d.take(MAX_RESOURCES / 2).map(|(_, resource)| resource)\n")]),
    ("cp-drain-skip", "bad", "P28", [(CP, "        d.map(|(_, resource)| resource)\n", "        d.filter(|(k, _)| !k.is_empty()).map(|(_, resource)| resource)\n")]),
    ("cp-exp-flip", "bad", "P28", [(CP, "now - conn.last_used < idle_timeout", "now - conn.last_used > idle_timeout")]),
    ("cp-exp-none", "bad", "P28", [(CP, "if now - conn.last_used < idle_timeout {", "if now - conn.last_used < idle_timeout || true {")]),
    ("cp-exp-break", "bad", "P28", [(CP, "                    resources.insert(addr, conn);\n                }\n", "                    resources.insert(addr, conn);\n                } else {\n                    break;\n                }\n")]),
    ("cp-exp-const", "bad", "P28", [(CP, "now - conn.last_used < idle_timeout", "now - conn.last_used < DEFAULT_IDLE_RESOURCE_TIMEOUT"), (CP, "        idle_timeout: Duration,\n", "        _idle_timeout: Duration,\n")]),
    ("cp-exp-locked", "bad", "P28", [(CP, "            drop(resources);\n            thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);", "            thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);\n            drop(resources);")]),
    ("cp-exp-sleep", "bad", "P28", [(CP, "thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);", "thread::sleep(EXPIRE_RESOURCE_CYCLE_TIME);")]),
    ("cp-exp-park", "bad", "P28", [(CP, "thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);", "thread::park();")]),
    ("cp-exp-once", "bad", "P28", [(CP, "            thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);\n", "            thread::park_timeout(EXPIRE_RESOURCE_CYCLE_TIME);\n            break;\n")]),
    ("cp-exp-nostop", "bad", "P28", [(CP, "while !stop.load(Ordering::Acquire) {", "let _ = stop.load(Ordering::Acquire);\n        loop {")]),
    ("cp-exp-stop-flip", "bad", "P28", [(CP, "while !stop.load(Ordering::Acquire) {", "while stop.load(Ordering::Acquire) {")]),
    ("cp-exp-touch", "bad", "P28", [(CP, "                    resources.insert(addr, conn);\n                }\n            }\n            drop", "                    resources.insert(addr, PoolResource::new(conn.resource()));\n                }\n            }\n            drop")]),
    ("cp-drop-order", "bad", "P28", [(CP, DROP, """        let handle = &mut self.expire_worker_handle;
        let handle = handle.take().unwrap();
        handle.thread().unpark();
        stop_worker.store(true, Ordering::Release);
        handle.join().unwrap();
""")]),
    ("cp-drop-nounpark", "bad", "P28", [(CP, "        handle.thread().unpark();\n", "")]),
    ("cp-drop-nojoin", "bad", "P28", [(CP, "        handle.join().unwrap();\n", "")]),
    ("cp-drop-nostop", "bad", "P28", [(CP, "        stop_worker.store(true, Ordering::Release);\n", "        let _ = stop_worker.load(Ordering::Acquire);\n")]),
    ("cp-new-stop", "bad", "P28", [(CP, "        let expire_worker_stop2 = Arc::clone(&expire_worker_stop);", "        let expire_worker_stop2 = Arc::new(AtomicBool::new(false));")]),
    ("cp-new-map", "bad", "P28", [(CP, "        let expire_worker_resources = Arc::clone(&resources);", "        let expire_worker_resources = Arc::new(RwLock::new(HashMap::new()));")]),
    ("cp-new-idle", "bad", "P28", [(CP, "            Some(timeout) => timeout,\n            None => DEFAULT_IDLE_RESOURCE_TIMEOUT,", "            Some(timeout) if timeout > DEFAULT_IDLE_RESOURCE_TIMEOUT => timeout,\n            _ => DEFAULT_IDLE_RESOURCE_TIMEOUT,")]),
    ("cp-new-stopped", "bad", "P28", [(CP, "Arc::new(AtomicBool::new(false))", "Arc::new(AtomicBool::new(true))")]),
    ("cp-res-time", "bad", "P28", [(CP, "            last_used: Instant::now(),", "            last_used: Instant::now() + DEFAULT_IDLE_RESOURCE_TIMEOUT,")]),
    ("cp-cdrop-first", "bad", "P28", [(CM, CDROP, CDROP.replace("_ = connection.shutdown(std::net::Shutdown::Both)", "if connection.shutdown(std::net::Shutdown::Both).is_err() {\n                break;\n            }"))]),
    ("cp-cdrop-read", "bad", "P28", [(CM, "std::net::Shutdown::Both", "std::net::Shutdown::Read")]),
    ("cp-cdrop-none", "bad", "P28", [(CM, "_ = connection.shutdown(std::net::Shutdown::Both)", "_ = connection.peer_addr()")]),
    ("cp-cdrop-skip", "bad", "P28", [(CM, "for connection in connections {", "for connection in connections.into_iter().skip(1) {")]),
]
