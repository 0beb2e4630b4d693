"""the client, the handlers and the programs: rewrites that keep the behaviour, and some that do not"""
C = "wruster/src/http/client/mod.rs"
H = "wruster_handlers/src/lib.rs"
S = "wrustatic/src/main.rs"
D = "wrusdummy/src/main.rs"
CL = "P01 P06 P07 P11 P27 P28 P36"
HA = "P31 P32 P34"
ST = "P31 P32 P34 P35"
DU = "P32 P33"

CDROP = """        if let Some(pool) = self.pool.upgrade() {
            match self.response.body.as_mut() {
                Some(body) => {
                    if let Err(err) = body.ensure_read() {
                        error!(
                            "error ensuring body in request has completely read: {}",
                            err
                        );
                        return;
                    }
                }
                // The body was taken out of the response, so its owner could
                // still be reading it from the connection.
                None if self.has_body => return,
                None => (),
            }

            let pool = match pool.lock() {
                Ok(pool) => pool,
                Err(_) => {
                    error!("error getting a lock for a client connection pool");
                    return;
                }
            };

            let conn = match self.conn.try_clone() {
                Ok(conn) => conn,
                Err(err) => {
                    error!("error cloning stream {}", err);
                    return;
                }
            };
            let conn = Arc::new(conn);
            pool.insert(&self.addr, PoolResource::new(conn))
        };
"""
CLEN = """        if let (Some(body), None) = (&request.body, request.headers.get("Content-Length")) {
            let value = body.content_length.to_string();
            let name = String::from("Content-Length");
            request.headers.add(Header { name, value });
        }
"""
CCONN = """        let conn = {
            match persistent {
                true => {
                    // Don't hold the lock of the pool while connecting.
                    let pooled = {
                        let pool = self.connection_pool.lock().map_err(HttpError::from)?;
                        pool.get(addr)
                    };
                    match pooled {
                        Some(conn) => conn.resource(),
                        None => Self::connect(addr).map(Arc::new)?,
                    }
                }
                false => Self::connect(addr).map(Arc::new)?,
            }
        };
"""
CCLOSE = """        let close = match response.headers.get("Connection") {
            Some(values) => values.iter().any(|value| value.to_lowercase() == "close"),
            None => false,
        };
"""
CREAD = """        let response = match Response::read_from(stream) {
            Ok(response) => response,
            Err(err) => return Err(err),
        };
"""
CCON2 = """        let addrs = addr.to_socket_addrs().map_err(HttpError::from)?;
        let addrs = addrs.collect::<Vec<SocketAddr>>();
        TcpStream::connect(&*addrs).map_err(HttpError::from)
"""
CLDROP = """        let pool = self.connection_pool.lock().unwrap();
        let connections = pool.drain();
        drop(pool);
        for connection in connections {
            let connection = connection.resource();
            _ = connection.shutdown(std::net::Shutdown::Both)
        }
"""
BASE = """    let base_path: PathBuf = match PathBuf::from(dir).canonicalize() {
        Ok(base_path) => base_path,
        Err(err) => {
            error!("error: resolving directory {}, error info: {}", dir, err);
            return Response::from_status(StatusCode::InternalServerError);
        }
    };
"""
URI = """    let mut uri = request.uri.as_str();
    if uri.starts_with('/') {
        if uri.len() < 2 {
            return Response::from_status(StatusCode::NotFound);
        }
        uri = &uri[1..]
    }
    let mut path = base_path;
    path.push(uri);
"""
META = """    let metadata = match fs::metadata(&path) {
        Ok(metadata) => metadata,
        Err(err) => {
            if let io::ErrorKind::NotFound = err.kind() {
                return Response::from_status(StatusCode::NotFound);
            }
            return Response::from_status(StatusCode::InternalServerError);
        }
    };
"""
OPEN = """    let content = match fs::File::open(&path) {
        Ok(content) => content,
        Err(err) => {
            if let io::ErrorKind::NotFound = err.kind() {
                return Response::from_status(StatusCode::NotFound);
            }
            return Response::from_status(StatusCode::InternalServerError);
        }
    };
"""
ISFILE = """    if !metadata.is_file() {
        return Response::from_status(StatusCode::NotFound);
    }

"""
RESP = """    let mut headers = Headers::new();
    let content: Box<dyn Read> = Box::new(content);
    headers.add(Header {
        name: String::from("Content-Length"),
        value: metadata.len().to_string(),
    });
    headers.add(Header {
        name: String::from("Content-Type"),
        value: mime_type.to_string(),
    });
    let body = Body::new(Some(mime_type), metadata.len(), content);
    Response {
        status: StatusCode::OK,
        headers,
        body: Some(body),
    }
"""
RUNNING = """    let running = match cli.tls_cert {
        Some(cert) => {
            let cert = Certificate::read_from(&cert)
                .map_err(|err| {
                    error!("{}", err);
                    exit(1)
                })
                .unwrap();
            // The spec ensures that if the tls_cert flag is the defined the
            // tls_private must be also defined.
            let private_key_file = cli.tls_private.unwrap();
            let key = PrivateKey::read_from(&private_key_file)
                .map_err(|err| {
                    error!("{}", err);
                    exit(1)
                })
                .unwrap();
            server.run_tls(&addr, routes, key, cert)
        }
        None => server.run(&addr, routes),
    };
    if let Err(err) = running {
        error!("error running wruster {}", err.to_string());
        process::exit(1);
    }
    if let Err(err) = server.wait() {
        error!("error running wruster {}", err.to_string());
        process::exit(1);
    };
    process::exit(0);
"""
DROUTE = """        let handler = move |request: &mut Request| -> Response {
            debug!("serving request for route {}", name);
            serve_route(
                content.clone(),
                content_type.clone(),
                status.clone(),
                request,
            )
        };
"""
DMETHOD = """        let method = HttpMethod::from_str(&route.method).unwrap_or_else(|err| {
            error!("parsing http method in route {}: {}", &name, err);
            process::exit(1);
        });
"""
DCT = """        let content_type = Mime::from_str(&route.response.content_type).unwrap_or_else(|err| {
            error!("invalid content type in route {}: {}", &name, err);
            process::exit(1);
        });
"""
DARGS = """    let args: Vec<String> = env::args().collect();
    if args.len() != 3 {
        eprintln!("usage: wrusdummy ip/host:port config_file");
        process::exit(1);
    }
    let addr = &args[1];
    let cfg_file = &args[2];
"""
DRUN = """    server.run(addr, router).unwrap_or_else(|err| {
        error!("running wruster {}", err.to_string());
        process::exit(1);
    });
    server.wait().unwrap_or_else(|err| {
        error!("error running wruster {}", err.to_string());
        process::exit(1);
    });
    process::exit(0);
"""
DSERVE = """    let len = content.len() as u64;
    let mut response = Response::from_content(Cursor::new(content), len, content_type);
    response.status = status;
    response
"""

MUTANTS = [
    ("pr-same-cdrop-early", "same", CL, [(C, CDROP, """        let pool = match self.pool.upgrade() {
            Some(pool) => pool,
            None => return,
        };
        if let Some(body) = self.response.body.as_mut() {
            if let Err(err) = body.ensure_read() {
                error!("error ensuring body in request has completely read: {}", err);
                return;
            }
        } else if self.has_body {
            return;
        }
        let conn = match self.conn.try_clone() {
            Ok(conn) => Arc::new(conn),
            Err(err) => {
                error!("error cloning stream {}", err);
                return;
            }
        };
        match pool.lock() {
            Ok(pool) => pool.insert(&self.addr, PoolResource::new(conn)),
            Err(_) => error!("error getting a lock for a client connection pool"),
        };
""")]),
    ("pr-same-cdrop-helper", "same", CL, [(C, CDROP, """        let Some(pool) = self.pool.upgrade() else {
            return;
        };
        if !self.skip_body() {
            return;
        }
        let Ok(pool) = pool.lock() else {
            error!("error getting a lock for a client connection pool");
            return;
        };
        match self.conn.try_clone() {
            Ok(conn) => pool.insert(&self.addr, PoolResource::new(Arc::new(conn))),
            Err(err) => error!("error cloning stream {}", err),
        }
"""), (C, "pub struct Client {", """impl ClientResponse {
    fn skip_body(&mut self) -> bool {
        match &mut self.response.body {
            None => !self.has_body,
            Some(body) => match body.ensure_read() {
                Ok(_) => true,
                Err(err) => {
                    error!("error ensuring body in request has completely read: {}", err);
                    false
                }
            },
        }
    }
}

pub struct Client {""")]),
    ("pr-same-clen", "same", CL, [(C, CLEN, """        let announced = request.headers.get("Content-Length").is_some();
        if !announced {
            if let Some(body) = request.body.as_ref() {
                let length = body.content_length;
                request.headers.add(Header {
                    name: "Content-Length".to_string(),
                    value: format!("{}", length),
                });
            }
        }
""")]),
    ("pr-same-clen-fn", "same", CL, [(C, CLEN, """        Self::announce_length(&mut request);
"""), (C, "    fn connect(addr: &str)", """    fn announce_length(request: &mut Request) {
        let length = match &request.body {
            Some(body) if request.headers.get("Content-Length").is_none() => body.content_length,
            _ => return,
        };
        request.headers.add(Header {
            name: String::from("Content-Length"),
            value: length.to_string(),
        });
    }

    fn connect(addr: &str)""")]),
    ("pr-same-cconn", "same", CL, [(C, CCONN, """        let pooled = if persistent {
            self.connection_pool.lock().map_err(HttpError::from)?.get(addr)
        } else {
            None
        };
        let conn = match pooled {
            Some(conn) => conn.resource(),
            None => Arc::new(Self::connect(addr)?),
        };
""")]),
    ("pr-same-cconn-fn", "same", CL, [(C, CCONN, """        let conn = self.connection(addr, persistent)?;
"""), (C, "    fn connect(addr: &str)", """    fn connection(&self, addr: &str, persistent: bool) -> Result<Arc<TcpStream>, HttpError> {
        if persistent {
            let pool = self.connection_pool.lock().map_err(HttpError::from)?;
            let pooled = pool.get(addr);
            drop(pool);
            if let Some(conn) = pooled {
                return Ok(conn.resource());
            }
        }
        let conn = Self::connect(addr)?;
        Ok(Arc::new(conn))
    }

    fn connect(addr: &str)""")]),
    ("pr-same-cclose", "same", CL, [(C, CCLOSE, """        let close = response
            .headers
            .get("Connection")
            .map_or(false, |values| values.iter().any(|value| value.eq_ignore_ascii_case("close")));
""")]),
    ("pr-same-cclose-loop", "same", CL, [(C, CCLOSE, """        let mut close = false;
        if let Some(values) = response.headers.get("Connection") {
            for value in values {
                if value.to_ascii_lowercase() == "close" {
                    close = true;
                }
            }
        }
""")]),
    ("pr-same-creus", "same", CL, [(C, "            reusable: persistent && delimited && !close,\n            has_body,", "            has_body,\n            reusable: !close && delimited && persistent,")]),
    ("pr-same-creus-if", "same", CL, [(C, "            reusable: persistent && delimited && !close,", "            reusable: if close { false } else { persistent && delimited },")]),
    ("pr-same-cread", "same", CL, [(C, CREAD, """        let response = Response::read_from(stream)?;
""")]),
    ("pr-same-csend-fn", "same", CL, [(C, """        request.write(&mut stream)?;
        stream.flush().map_err(HttpError::from)?;
        let stream = Box::new(stream);
""" + CREAD, """        let response = Self::exchange(request, stream)?;
"""), (C, "    fn connect(addr: &str)", """    fn exchange(mut request: Request, mut stream: TimeoutStream<TcpStream>) -> Result<Response, HttpError> {
        request.write(&mut stream)?;
        stream.flush()?;
        Response::read_from(Box::new(stream))
    }

    fn connect(addr: &str)""")]),
    ("pr-same-ccon", "same", CL, [(C, CCON2, """        let addrs: Vec<SocketAddr> = match addr.to_socket_addrs() {
            Ok(addrs) => addrs.collect(),
            Err(err) => return Err(HttpError::from(err)),
        };
        let conn = TcpStream::connect(addrs.as_slice())?;
        Ok(conn)
""")]),
    ("pr-same-cldrop", "same", CL, [(C, CLDROP, """        let connections = {
            let pool = self.connection_pool.lock().unwrap();
            pool.drain()
        };
        connections.into_iter().for_each(|connection| {
            let _ = connection.resource().shutdown(std::net::Shutdown::Both);
        });
""")]),
    ("pr-same-cldrop-ok", "same", CL, [(C, CLDROP, """        for connection in self.connection_pool.lock().unwrap().drain() {
            connection.resource().shutdown(std::net::Shutdown::Both).ok();
        }
""")]),
    ("pr-cdrop-before", "bad", "P27", [(C, "                None if self.has_body => return,\n", "")]),
    ("pr-cclose-first", "bad", "P27", [(C, "            Some(values) => values.iter().any(|value| value.to_lowercase() == \"close\"),", "            Some(values) => values.len() == 1 && values[0] == \"close\",")]),
    ("pr-creus-delim", "bad", "P27", [(C, "            reusable: persistent && delimited && !close,", "            reusable: persistent && (delimited || has_body) && !close,"), (C, "        let delimited = response.headers.get(\"Content-Length\").is_some();", "        let delimited = response.headers.get(\"Content-Length\").is_some() || !has_body;"), (C, "        let response_pool = Arc::clone(&self.connection_pool);\n        let has_body = response.body.is_some();\n", "        let response_pool = Arc::clone(&self.connection_pool);\n"), (C, "        // TODO: when the response does not have body", "        let has_body = response.body.is_some();\n        // TODO: when the response does not have body")]),
    ("pr-clen-has", "bad", "P07", [(C, "            let value = body.content_length.to_string();", "            let value = body.bytes_read.to_string();")]),
    # handlers
    ("pr-same-base", "same", HA, [(H, BASE, """    let canonical = fs::canonicalize(dir);
    if let Err(err) = &canonical {
        error!("error: resolving directory {}, error info: {}", dir, err);
        return Response::from_status(StatusCode::InternalServerError);
    }
    let base_path = canonical.unwrap();
""")]),
    ("pr-same-base-path", "same", HA, [(H, BASE, """    let base_path = match std::path::Path::new(dir).canonicalize() {
        Err(err) => {
            error!("error: resolving directory {}, error info: {}", dir, err);
            return Response::from_status(StatusCode::InternalServerError);
        }
        Ok(base_path) => base_path,
    };
""")]),
    ("pr-same-uri", "same", HA, [(H, URI, """    let uri = match request.uri.strip_prefix('/') {
        Some("") => return Response::from_status(StatusCode::NotFound),
        Some(rest) => rest,
        None => request.uri.as_str(),
    };
    let path = base_path.join(uri);
""")]),
    ("pr-same-uri2", "same", HA, [(H, URI, """    if request.uri == "/" {
        return Response::from_status(StatusCode::NotFound);
    }
    let uri = request.uri.strip_prefix('/').unwrap_or(&request.uri);
    let path = base_path.join(uri);
""")]),
    ("pr-same-meta", "same", HA, [(H, META, """    let metadata = match path.metadata() {
        Ok(metadata) => metadata,
        Err(err) => return failed(err),
    };
"""), (H, OPEN, """    let content = match fs::File::open(path.as_path()) {
        Ok(content) => content,
        Err(err) => return failed(err),
    };
"""), (H, "/**\nA middleware", """fn failed(err: io::Error) -> Response {
    let status = match err.kind() {
        io::ErrorKind::NotFound => StatusCode::NotFound,
        _ => StatusCode::InternalServerError,
    };
    Response::from_status(status)
}

/**
A middleware""")]),
    ("pr-same-meta-open", "same", HA, [(H, META + "    // Only the content of a file can be served.\n" + ISFILE + OPEN, """    let opened = fs::metadata(&path).and_then(|metadata| {
        if !metadata.is_file() {
            return Err(io::Error::from(io::ErrorKind::NotFound));
        }
        fs::File::open(&path).map(|content| (metadata, content))
    });
    let (metadata, content) = match opened {
        Ok(opened) => opened,
        Err(err) if err.kind() == io::ErrorKind::NotFound => {
            return Response::from_status(StatusCode::NotFound)
        }
        Err(_) => return Response::from_status(StatusCode::InternalServerError),
    };
""")]),
    ("pr-same-isfile", "same", HA, [(H, ISFILE, """    if metadata.is_file() == false {
        return Response::from_status(StatusCode::NotFound);
    }
""")]),
    ("pr-same-resp-fc", "same", HA, [(H, RESP, """    Response::from_content(content, metadata.len(), mime_type)
""")]),
    ("pr-same-resp-mut", "same", HA, [(H, RESP, """    let length = metadata.len();
    let mut response = Response::from_status(StatusCode::OK);
    response.headers = Headers::new();
    response.headers.add(Header { name: "Content-Length".into(), value: length.to_string() });
    response.headers.add(Header { name: "Content-Type".into(), value: mime_type.to_string() });
    response.body = Some(Body::new(Some(mime_type), length, Box::new(content) as Box<dyn Read>));
    response
""")]),
    ("pr-same-log", "same", HA, [(H, """    Box::new(move |request: &mut Request| {
        info!("request {:?}", request);
        let response = handler(request);
        info!("response {:?}", response);
        response
    })
""", """    let logged = move |request: &mut Request| -> Response {
        info!("request {:?}", request);
        let response = (*handler)(request);
        info!("response {:?}", &response);
        response
    };
    Box::new(logged)
""")]),
    ("pr-same-log-fn", "same", HA, [(H, """    Box::new(move |request: &mut Request| {
        info!("request {:?}", request);
        let response = handler(request);
        info!("response {:?}", response);
        response
    })
}
""", """    Box::new(move |request| logged(&handler, request))
}

fn logged(handler: &HttpHandler, request: &mut Request) -> Response {
    info!("request {:?}", request);
    let response = handler(request);
    info!("response {:?}", response);
    response
}
""")]),
    ("pr-uri-all", "bad", "P31", [(H, "        uri = &uri[1..]\n", "        uri = uri.trim_start_matches('/').trim_start_matches('.')\n")]),
    ("pr-resp-len", "bad", "P31", [(H, "    let body = Body::new(Some(mime_type), metadata.len(), content);", "    let body = Body::new(Some(mime_type), metadata.len().min(u32::MAX as u64), content);")]),
    # static web server
    ("pr-same-st-fn", "same", ST, [(S, """            let cert = Certificate::read_from(&cert)
                .map_err(|err| {
                    error!("{}", err);
                    exit(1)
                })
                .unwrap();
""", """            let cert = Certificate::read_from(&cert).unwrap_or_else(|err| fail(err));
"""), (S, """            let key = PrivateKey::read_from(&private_key_file)
                .map_err(|err| {
                    error!("{}", err);
                    exit(1)
                })
                .unwrap();
""", """            let key = PrivateKey::read_from(&private_key_file).unwrap_or_else(|err| fail(err));
"""), (S, "fn main() {", """fn fail(err: std::io::Error) -> ! {
    error!("{}", err);
    exit(1)
}

fn main() {""")]),
    ("pr-same-st-run", "same", ST, [(S, RUNNING, """    let running = match (cli.tls_cert, cli.tls_private) {
        (Some(cert), Some(key)) => {
            let cert = match Certificate::read_from(&cert) {
                Ok(cert) => cert,
                Err(err) => {
                    error!("{}", err);
                    exit(1)
                }
            };
            let key = match PrivateKey::read_from(&key) {
                Ok(key) => key,
                Err(err) => {
                    error!("{}", err);
                    exit(1)
                }
            };
            server.run_tls(&addr, routes, key, cert)
        }
        _ => server.run(&addr, routes),
    };
    match running.and_then(|_| server.wait()) {
        Ok(_) => process::exit(0),
        Err(err) => {
            error!("error running wruster {}", err.to_string());
            process::exit(1);
        }
    }
""")]),
    ("pr-same-st-timeouts", "same", ST, [(S, """    let timeouts = Timeouts {
        write_response_timeout: Duration::from_secs(10),
        read_request_timeout: Duration::from_secs(10),
    };
    let mut server = Server::from_timeouts(timeouts);
""", """    let limit = Duration::from_millis(10_000);
    let mut server = Server::from_timeouts(Timeouts {
        read_request_timeout: limit,
        write_response_timeout: limit,
    });
""")]),
    ("pr-same-st-handler", "same", ST, [(S, """    let serve_dir: HttpHandler =
        log_middleware(Box::new(move |request| serve_static(&dir, request)));
    routes.add("/", http::HttpMethod::GET, serve_dir);
""", """    let serve: HttpHandler = Box::new(move |request: &mut http::Request| -> http::Response {
        let root = dir.as_str();
        serve_static(root, request)
    });
    let serve = log_middleware(serve);
    let root = "/";
    routes.add(root, http::HttpMethod::GET, serve);
""")]),
    ("pr-st-swap", "bad", "P34", [(S, "        read_request_timeout: Duration::from_secs(10),", "        read_request_timeout: Duration::from_micros(10),")]),
    # dummy server
    ("pr-same-du-route", "same", DU, [(D, DROUTE, """        let handler = move |_: &mut Request| -> Response {
            debug!("serving request for route {}", name);
            let (content, kind) = (content.clone(), content_type.clone());
            let mut response = Response::from_content(Cursor::new(content.clone()), content.len() as u64, kind);
            response.status = status.clone();
            response
        };
"""), (D, """fn serve_route(
    content: String,
    content_type: Mime,
    status: StatusCode,
    _: &mut Request,
) -> Response {
""" + DSERVE + "}\n", "")]),
    ("pr-same-du-method", "same", DU, [(D, DMETHOD, """        let method = match route.method.parse::<HttpMethod>() {
            Ok(method) => method,
            Err(err) => {
                error!("parsing http method in route {}: {}", &name, err);
                process::exit(1)
            }
        };
"""), (D, DCT, """        let content_type: Mime = match route.response.content_type.parse() {
            Ok(content_type) => content_type,
            Err(err) => {
                error!("invalid content type in route {}: {}", &name, err);
                process::exit(1)
            }
        };
""")]),
    ("pr-same-du-args", "same", DU, [(D, DARGS, """    let args: Vec<String> = env::args().collect();
    let (addr, cfg_file) = match args.as_slice() {
        [_, addr, cfg_file] => (addr, cfg_file),
        _ => {
            eprintln!("usage: wrusdummy ip/host:port config_file");
            process::exit(1);
        }
    };
""")]),
    ("pr-same-du-args-next", "same", DU, [(D, DARGS, """    let mut args = env::args().skip(1);
    let (addr, cfg_file) = match (args.next(), args.next(), args.next()) {
        (Some(addr), Some(cfg_file), None) => (addr, cfg_file),
        _ => {
            eprintln!("usage: wrusdummy ip/host:port config_file");
            process::exit(1);
        }
    };
    let (addr, cfg_file) = (&addr, &cfg_file);
""")]),
    ("pr-same-du-run", "same", DU, [(D, DRUN, """    if let Err(err) = server.run(addr, router) {
        error!("running wruster {}", err.to_string());
        process::exit(1);
    }
    match server.wait() {
        Ok(_) => process::exit(0),
        Err(err) => {
            error!("error running wruster {}", err.to_string());
            process::exit(1)
        }
    }
""")]),
    ("pr-same-du-serve", "same", DU, [(D, DSERVE, """    let length = content.len();
    let response = Response::from_content(Cursor::new(content.into_bytes()), length as u64, content_type);
    Response { status, ..response }
""")]),
    ("pr-same-du-fn", "same", DU, [(D, DMETHOD, """        let method = method_of(&name, &route);
"""), (D, "fn serve_route(", """fn method_of(name: &str, route: &config::Route) -> HttpMethod {
    HttpMethod::from_str(&route.method).unwrap_or_else(|err| {
        error!("parsing http method in route {}: {}", name, err);
        process::exit(1);
    })
}

fn serve_route(""")]),
    ("pr-same-du-config", "same", DU, [(D, """            let file = File::open(path)?;
            let config: HashMap<String, Route> = serde_yaml::from_reader(file)
                .map_err(|error| io::Error::new(ErrorKind::InvalidData, error))?;
            Ok(Routes(config))
""", """            let text = std::fs::read_to_string(path)?;
            Routes::from_str(&text).map_err(|error| io::Error::new(ErrorKind::InvalidData, error))
""")]),
    ("pr-du-chars", "bad", "P33", [(D, "    let len = content.len() as u64;", "    let len = content.chars().count() as u64;")]),
]
