"""locks"""
C = "wruster/src/http/client/mod.rs"
CP = "wruster/src/http/client/connection_pool.rs"
CS = "wruster/src/streams/cancellable_stream.rs"
OB = "wruster/src/streams/observable.rs"
R = "wruster/src/router/mod.rs"
DRAIN = """    pub fn drain(&self) -> Vec<Weak<ObservableStream<T>>> {
        let mut items = self.items.write().unwrap();
        items.drain().map(|x| x.1).collect()
    }"""
TRACK = """        let mut items = list.items.write().unwrap();
        items.insert(key, Arc::downgrade(&stream));
        ObservedStream { stream }"""
GETP = """        let routes = self.routes.borrow();
        let method_actions = match routes.get_value_prefix("""
PUT = """        let mut connections = self.resources.write().unwrap();
        let connections = connections.borrow_mut();
        if connections.len() >= MAX_RESOURCES"""
POOLED = """                    let pooled = {
                        let pool = self.connection_pool.lock().map_err(HttpError::from)?;
                        pool.get(addr)
                    };
                    match pooled {"""
FREE = """        let mut free_cells = self.free_cells.write().unwrap();
        let index = match free_cells.pop_front() {"""
MUTANTS = [
    ("lk-drain-up", "bad", "P23", [(OB, DRAIN, """    pub fn drain(&self) -> Vec<Weak<ObservableStream<T>>> {
        let mut items = self.items.write().unwrap();
        let pending: Vec<_> = items.drain().map(|x| x.1).collect();
        pending.into_iter().filter(|s| s.upgrade().is_some()).collect()
    }""")]),
    ("lk-drain-shut", "bad", "P23", [(OB, DRAIN, """    pub fn drain(&self) -> Vec<Weak<ObservableStream<T>>> {
        let mut items = self.items.write().unwrap();
        for stream in items.values() {
            if let Some(stream) = stream.upgrade() {
                let _ = stream.shutdown(std::net::Shutdown::Read);
            }
        }
        items.drain().map(|x| x.1).collect()
    }""")]),
    ("lk-drain-len", "bad", "P23", [(OB, DRAIN, """    pub fn drain(&self) -> Vec<Weak<ObservableStream<T>>> {
        let mut items = self.items.write().unwrap();
        let mut drained = Vec::with_capacity(self.len());
        drained.extend(items.drain().map(|x| x.1));
        drained
    }""")]),
    ("lk-retain", "bad", "P23", [(OB, TRACK, """        let mut items = list.items.write().unwrap();
        items.retain(|_, stream| stream.upgrade().is_some());
        items.insert(key, Arc::downgrade(&stream));
        drop(items);
        ObservedStream { stream }""")]),
    ("lk-retain-ok", "same", "P23", [(OB, TRACK, """        let mut items = list.items.write().unwrap();
        let weak = Arc::downgrade(&stream);
        items.insert(key, weak);
        drop(items);
        ObservedStream { stream }""")]),
    ("lk-iflet", "bad", "P23", [(CP, "        let mut resources = self.resources.write().unwrap();\n        resources.remove(key)", """        if let Some(resource) = self.resources.write().unwrap().remove(key) {
            if resource.last_used.elapsed() < Duration::from_secs(3600) {
                return Some(resource);
            }
            return self.get(key);
        }
        None""")]),
    ("lk-len", "bad", "P23", [(CP, PUT, """        let mut connections = self.resources.write().unwrap();
        let connections = connections.borrow_mut();
        if self.resources.read().unwrap().len() >= MAX_RESOURCES""")]),
    ("lk-put-drain", "bad", "P23", [(CP, "        connections.insert(key.to_string(), connection);\n    }", "        connections.insert(key.to_string(), connection);\n        if connections.len() > 2 * MAX_RESOURCES {\n            self.drain();\n        }\n    }")]),
    ("lk-put-after", "same", "P23", [(CP, "        let mut resources = self.resources.write().unwrap();\n        resources.remove(key)", "        let found = {\n            let mut resources = self.resources.write().unwrap();\n            resources.remove(key)\n        };\n        found")]),
    ("lk-get-tmp", "same", "P23", [(CP, "        let mut resources = self.resources.write().unwrap();\n        resources.remove(key)", "        self.resources.write().unwrap().remove(key)")]),
    ("lk-connect", "bad", "P23", [(C, POOLED, """                    let pool = self.connection_pool.lock().map_err(HttpError::from)?;
                    match pool.get(addr) {""")]),
    ("lk-connect-tmp", "bad", "P23", [(C, POOLED, """                    match self.connection_pool.lock().map_err(HttpError::from)?.get(addr) {""")]),
    ("lk-ensure", "bad", "P23", [(C, """                Some(body) => {
                    if let Err(err) = body.ensure_read() {""", """                Some(body) => {
                    let _pool = pool.lock();
                    if let Err(err) = body.ensure_read() {""")]),
    ("lk-twice", "bad", "P23", [(C, "            pool.insert(&self.addr, PoolResource::new(conn))", """            if let Some(other) = self.pool.upgrade() {
                if let Ok(other) = other.lock() {
                    let _ = other.get(&self.addr);
                }
            }
            pool.insert(&self.addr, PoolResource::new(conn))""")]),
    ("lk-let-guard", "same", "P23", [(C, POOLED, """                    let guard = self.connection_pool.lock().map_err(HttpError::from)?;
                    let pooled = guard.get(addr);
                    drop(guard);
                    match pooled {""")]),
    ("lk-fn-guard", "same", "P23", [(CP, "        let mut resources = self.resources.write().unwrap();\n        resources.remove(key)\n    }", "        let mut resources = self.all();\n        resources.remove(key)\n    }\n\n    fn all(&self) -> std::sync::RwLockWriteGuard<'_, HashMap<String, PoolResource<T>>> {\n        self.resources.write().unwrap()\n    }")]),
    ("lk-fn-guard2", "bad", "P23", [(CP, "        let mut resources = self.resources.write().unwrap();\n        resources.remove(key)\n    }", "        let mut resources = self.all();\n        if !resources.contains_key(key) {\n            return self.all().remove(key);\n        }\n        resources.remove(key)\n    }\n\n    fn all(&self) -> std::sync::RwLockWriteGuard<'_, HashMap<String, PoolResource<T>>> {\n        self.resources.write().unwrap()\n    }")]),
    ("lk-number", "bad", "P23", [(DP, FREE, """        let mut free_cells = self.free_cells.write().unwrap();
        debug!("workers in use: {}", self.max - self.free_cells.read().unwrap().len());
        let index = match free_cells.pop_front() {""")]),
    ("lk-number2", "bad", "P23", [(DP, "        let worker = DynamicWorker::new(index", "        if self.number_of_workers() > self.max {\n            return Err(action);\n        }\n        let worker = DynamicWorker::new(index")]),
    ("lk-number-ok", "same", "P23", [(DP, """        let index = match free_cells.pop_front() {
            Some(index) => index,
            None => return Err(action),
        };
""", """        let index = match free_cells.pop_front() {
            Some(index) => index,
            None => return Err(action),
        };
        drop(free_cells);
""")]),
    ("lk-routes", "bad", "P23", [(R, "        routes.add_value(route.as_bytes(), router_handlers);", "        if self.get(route, method).is_none() {\n            routes.add_value(route.as_bytes(), router_handlers);\n        }")]),
    ("lk-routes-2", "same", "P23", [(R, GETP, """        let routes = self.routes.borrow();
        let again = self.routes.borrow();
        let _ = again.get_value_prefix(route.as_bytes());
        let method_actions = match routes.get_value_prefix(""")]),
    ("lk-both", "same", "P23", [(CS, "    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {", """    #[allow(dead_code)]
    pub(crate) fn timeouts(&self) -> (Option<Duration>, Option<Duration>) {
        let read = self.read_timeout.read().unwrap();
        let write = self.write_timeout.read().unwrap();
        (*read, *write)
    }

    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {""")]),
    ("lk-cross", "bad", "P23", [(CS, "        let mut read_timeout = self.read_timeout.write().unwrap();\n        *read_timeout = dur;", """        let mut read_timeout = self.read_timeout.write().unwrap();
        if dur.is_none() {
            *self.write_timeout.write().unwrap() = None;
        }
        *read_timeout = dur;"""), (CS, "        let mut write_timeout = self.write_timeout.write().unwrap();\n        *write_timeout = dur;", """        let mut write_timeout = self.write_timeout.write().unwrap();
        if dur.is_none() {
            *self.read_timeout.write().unwrap() = None;
        }
        *write_timeout = dur;""")]),
    ("lk-cross-ok", "same", "P23", [(CS, "        let mut read_timeout = self.read_timeout.write().unwrap();\n        *read_timeout = dur;", """        *self.read_timeout.write().unwrap() = dur;""")]),
    ("lk-handler", "bad", "P23", [(CP, "            drop(resources);\n            thread::park_timeout", "            thread::park_timeout")]),
    ("lk-tmp-len", "bad", "P23", [(OB, "        let mut items = self.items.write().unwrap();\n        items.remove(&key);", "        match self.items.write().unwrap().remove(&key) {\n            Some(_) => debug!(\"{} connections left\", self.len()),\n            None => (),\n        }"), (OB, "use std::{", "use log::debug;\nuse std::{")]),
    ("lk-tmp-len-ok", "same", "P23", [(OB, "        let mut items = self.items.write().unwrap();\n        items.remove(&key);", "        let found = self.items.write().unwrap().remove(&key);\n        if found.is_some() {\n            debug!(\"{} connections left\", self.len());\n        }"), (OB, "use std::{", "use log::debug;\nuse std::{")]),
    ("lk-iter", "bad", "P23", [(OB, DRAIN, """    pub fn drain(&self) -> Vec<Weak<ObservableStream<T>>> {
        self.items.write().unwrap().drain().filter(|x| !self.gone(x.0)).map(|x| x.1).collect()
    }

    fn gone(&self, key: usize) -> bool {
        !self.items.read().unwrap().contains_key(&key)
    }""")]),
]
