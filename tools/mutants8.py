# P34: the static web server; P33: the dummy server
WS = "wrustatic/src/main.rs"
TLS = """        Some(cert) => {
            let cert = Certificate::read_from(&cert)
                .map_err(|err| {
                    error!("{}", err);
                    exit(1)
                })
                .unwrap();
            // The spec ensures that if the tls_cert flag is the defined the
            // tls_private must be also defined.
            let private_key_file = cli.tls_private.unwrap();
            let key = PrivateKey::read_from(&private_key_file)
                .map_err(|err| {
                    error!("{}", err);
                    exit(1)
                })
                .unwrap();
            server.run_tls(&addr, routes, key, cert)
        }
        None => server.run(&addr, routes),
    };
"""
MATCH = "    let running = match cli.tls_cert {\n" + TLS
RUNERR = """    if let Err(err) = running {
        error!("error running wruster {}", err.to_string());
        process::exit(1);
    }
"""
WAITERR = """    if let Err(err) = server.wait() {
        error!("error running wruster {}", err.to_string());
        process::exit(1);
    };
    process::exit(0);
"""
END = RUNERR + WAITERR
WD = "wrusdummy/src/main.rs"
METH = """        let method = HttpMethod::from_str(&route.method).unwrap_or_else(|err| {
            error!("parsing http method in route {}: {}", &name, err);
            process::exit(1);
        });
"""
LOOP = open("/repo/wrusdummy/src/main.rs").read()
LOOP = LOOP[LOOP.index("    for (name, route) in routes {"):LOOP.index("    let timeouts")]
WAIT = """    server.wait().unwrap_or_else(|err| {
        error!("error running wruster {}", err.to_string());
        process::exit(1);
    });
"""
MUTANTS = [
    ("ws-fallback-key", "bad", "P34", [(WS, """                .map_err(|err| {
                    error!("{}", err);
                    exit(1)
                })
                .unwrap();
            server.run_tls(&addr, routes, key, cert)
""", """                .map_err(|err| {
                    error!("{}", err);
                });
            match key {
                Ok(key) => server.run_tls(&addr, routes, key, cert),
                Err(_) => server.run(&addr, routes),
            }
""")]),
    ("ws-requires", "bad", "P34", [(WS, '#[arg(long, requires = "tls_cert")]', "#[arg(long)]")]),
    ("ws-requires-self", "bad", "P34", [(WS, '#[arg(long, requires = "tls_cert")]', '#[arg(long, requires = "tls_private")]')]),
    ("ws-swap-fields", "bad", "P34", [(WS, "    /// [IP|host]:port to listen.\n    addres: String,\n    /// Directory to serve.\n    directory: String,", "    /// Directory to serve.\n    directory: String,\n    /// [IP|host]:port to listen.\n    addres: String,")]),
    ("ws-swap-files", "bad", "P34", [(WS, "Certificate::read_from(&cert)", "Certificate::read_from(cli.tls_private.as_ref().unwrap())")]),
    ("ws-keyfile", "bad", "P34", [(WS, "PrivateKey::read_from(&private_key_file)", "PrivateKey::read_from(&private_key_file.replace(\"~\", \"/root\"))")]),
    ("ws-run-exit0", "bad", "P34", [(WS, RUNERR, RUNERR.replace("exit(1)", "exit(0)"))]),
    ("ws-wait-exit0", "bad", "P34", [(WS, WAITERR, WAITERR.replace("exit(1)", "exit(0)"))]),
    ("ws-wait-ignored", "bad", "P34", [(WS, WAITERR, "    if let Err(err) = server.wait() {\n        error!(\"error running wruster {}\", err.to_string());\n    };\n    process::exit(0);\n")]),
    ("ws-nowait", "bad", "P34", [(WS, WAITERR, "    process::exit(0);\n")]),
    ("ws-run-ignored", "bad", "P34", [(WS, RUNERR, "    if let Err(err) = running {\n        error!(\"error running wruster {}\", err.to_string());\n    }\n")]),
    ("ws-cwd", "bad", "P34", [(WS, "serve_static(&dir, request)", "serve_static(if dir.is_empty() { \".\" } else { &dir }, request)")]),
    ("ws-dir-trim", "bad", "P34", [(WS, "    let dir = cli.directory;", "    let dir = cli.directory.trim().to_string();")]),
    ("ws-post", "bad", "P34", [(WS, "http::HttpMethod::GET", "http::HttpMethod::POST")]),
    ("ws-route", "bad", "P34", [(WS, 'routes.add("/", ', 'routes.add("/static", ')]),
    ("ws-zero-timeout", "bad", "P34", [(WS, "read_request_timeout: Duration::from_secs(10)", "read_request_timeout: Duration::from_secs(0)")]),
    ("ws-default-key", "bad", "P34", [(WS, '#[arg(long, requires = "tls_cert")]', '#[arg(long, requires = "tls_cert", default_value = "key.pem")]')]),
    ("ws-head-only", "bad", "P34", [(WS, "move |request| serve_static(&dir, request)", "move |request| { if request.uri.ends_with('/') { request.uri.push_str(\"index.html\"); } serve_static(&dir, request) }")]),
    ("ws-status", "bad", "P34", [(WS, "move |request| serve_static(&dir, request)", "move |request| { let mut r = serve_static(&dir, request); if r.status == http::StatusCode::NotFound { r.status = http::StatusCode::Forbidden; } r }")]),
    ("ws-plain-first", "bad", "P34", [(WS, "    if let Err(err) = running {\n", "    let running = running.or_else(|e| { error!(\"{}\", e); server.run(&addr, router::Router::new()) });\n    if let Err(err) = running {\n")]),
    ("ws-second", "bad", "P34", [(WS, "    let mut server = Server::from_timeouts(timeouts);\n", "    if addr.is_empty() { process::exit(0); }\n    let mut server = Server::from_timeouts(timeouts);\n")]),
    ("ws-key-empty", "bad", "P34", [(WS, "match cli.tls_cert {", "match cli.tls_cert.filter(|c| !c.is_empty()) {")]),
    # same behaviour, other words
    ("ws-same-pair", "same", "P34", [(WS, MATCH, """    let running = match (cli.tls_private, cli.tls_cert) {
        (Some(private), Some(cert)) => {
            let key = read_or_exit(PrivateKey::read_from(&private));
            let cert = read_or_exit(Certificate::read_from(&cert));
            server.run_tls(&addr, routes, key, cert)
        }
        (None, None) => server.run(&addr, routes),
        _ => unreachable!(),
    };
"""), (WS, "fn main() {", """fn read_or_exit<T, E: std::fmt::Display>(read: Result<T, E>) -> T {
    match read {
        Ok(x) => x,
        Err(err) => {
            error!("{}", err);
            exit(1)
        }
    }
}

fn main() {""")]),
    ("ws-same-result", "same", "P34", [(WS, END, """    let done = running.and_then(|_| server.wait());
    let code = match done {
        Ok(_) => 0,
        Err(err) => {
            error!("error running wruster {}", err.to_string());
            1
        }
    };
    process::exit(code);
""")]),
    ("ws-same-die", "same", "P34", [(WS, "fn main() {", "fn die(err: impl std::fmt::Display) -> ! {\n    error!(\"error running wruster {}\", err);\n    process::exit(1)\n}\n\nfn main() {"),
        (WS, END, "    running.unwrap_or_else(|err| die(err));\n    server.wait().unwrap_or_else(|err| die(err));\n    process::exit(0);\n")]),
    ("ws-same-routes", "same", "P34", [(WS, """    let routes = router::Router::new();
    let serve_dir: HttpHandler =
        log_middleware(Box::new(move |request| serve_static(&dir, request)));
    routes.add("/", http::HttpMethod::GET, serve_dir);
""", "    let routes = routes_for(dir);\n"), (WS, "fn main() {", """fn routes_for(dir: String) -> router::Router {
    let routes = router::Router::new();
    let serve: HttpHandler = Box::new(move |request| {
        let response = serve_static(dir.as_str(), request);
        response
    });
    routes.add("/", http::HttpMethod::GET, log_middleware(serve));
    routes
}

fn main() {""")]),
    ("ws-same-return", "same", "P34", [(WS, "        process::exit(1);\n    };\n    process::exit(0);\n", "        process::exit(1);\n    };\n")]),
    ("ws-same-exitcode", "same", "P34", [(WS, "fn main() {", "fn main() -> process::ExitCode {"),
        (WS, END, """    if let Err(err) = running.and_then(|()| server.wait()) {
        error!("error running wruster {}", err);
        return process::ExitCode::FAILURE;
    }
    process::ExitCode::SUCCESS
""")]),
    ("ws-same-order", "same", "P34", [(WS, "struct Cli {\n    /// [IP|host]:port to listen.\n    addres: String,\n    /// Directory to serve.\n    directory: String,\n", "struct Cli {\n    /// [IP|host]:port to listen.\n    #[arg(value_name = \"ADDRESS\")]\n    addres: String,\n    /// Directory to serve.\n    #[arg(id = \"root\")]\n    directory: String,\n")]),
    ("ws-same-borrow", "same", "P34", [(WS, "    let addr = cli.addres;\n    let dir = cli.directory;\n", "    let Cli { addres: addr, directory: dir, tls_private, tls_cert } = cli;\n"),
        (WS, "match cli.tls_cert {", "match tls_cert {"), (WS, "cli.tls_private.unwrap()", "tls_private.unwrap()")]),
    ("ws-same-log", "same", "P34", [(WS, "    let routes = router::Router::new();", "    info!(\"serving {} at {}\", dir, addr);\n    let routes = router::Router::new();")]),
    # --- P33 the dummy server
    ("wd-first", "bad", "P33", [(WD, "    for (name, route) in routes {", "    for (name, route) in routes.into_iter().take(64) {")]),
    ("wd-filter", "bad", "P33", [(WD, "    for (name, route) in routes {", "    for (name, route) in routes.into_iter().filter(|(_, r)| r.response.status != 0) {")]),
    ("wd-skip-bad", "bad", "P33", [(WD, METH, METH.replace("process::exit(1);", "HttpMethod::GET"))]),
    ("wd-continue", "bad", "P33", [(WD, "        let path = route.path.clone();", "        if route.response.content.is_empty() {\n            continue;\n        }\n        let path = route.path.clone();")]),
    ("wd-break", "bad", "P33", [(WD, "        let path = route.path.clone();", "        let path = route.path.clone();\n        if path.is_empty() {\n            break;\n        }")]),
    ("wd-name-path", "bad", "P33", [(WD, "let path = route.path.clone();", "let path = name.clone();")]),
    ("wd-path-slash", "bad", "P33", [(WD, "let path = route.path.clone();", "let path = route.path.trim_end_matches('/').to_string();")]),
    ("wd-status", "bad", "P33", [(WD, "StatusCode::from(route.response.status as usize)", "StatusCode::from(route.response.status as u8 as usize)")]),
    ("wd-status-unset", "bad", "P33", [(WD, "    response.status = status;\n", "    if len > 0 {\n        response.status = status;\n    }\n")]),
    ("wd-type", "bad", "P33", [(WD, """Mime::from_str(&route.response.content_type).unwrap_or_else(|err| {
            error!("invalid content type in route {}: {}", &name, err);
            process::exit(1);
        })""", "Mime::from_str(&route.response.content_type).unwrap_or(mime::TEXT_PLAIN)")]),
    ("wd-len-chars", "bad", "P33", [(WD, "content.len() as u64", "content.chars().count() as u64")]),
    ("wd-content-trim", "bad", "P33", [(WD, "route.response.content.clone()", "route.response.content.trim_end().to_string()")]),
    ("wd-content-path", "bad", "P33", [(WD, "route.response.content.clone()", "route.path.clone()")]),
    ("wd-exit0", "bad", "P33", [(WD, 'error!("running wruster {}", err.to_string());\n        process::exit(1);', 'error!("running wruster {}", err.to_string());\n        process::exit(0);')]),
    ("wd-wait", "bad", "P33", [(WD, WAIT, "    if let Err(err) = server.wait() {\n        error!(\"{}\", err.to_string());\n    }\n")]),
    ("wd-nowait", "bad", "P33", [(WD, WAIT, "")]),
    ("wd-argswap", "bad", "P33", [(WD, "let addr = &args[1];\n    let cfg_file = &args[2];", "let addr = &args[2];\n    let cfg_file = &args[1];")]),
    ("wd-usage0", "bad", "P33", [(WD, 'config_file");\n        process::exit(1);', 'config_file");\n        process::exit(0);')]),
    ("wd-cfg-empty", "bad", "P33", [(WD, "unwrap_or_else(move |err| {\n        error!(\"reading config file {}: {}\", cfg_file, err);\n        process::exit(1);\n    })", "unwrap_or_else(move |err| {\n        error!(\"reading config file {}: {}\", cfg_file, err);\n        config::Routes::default()\n    })"), (WD, "#[derive(Debug, PartialEq, Eq, Serialize, Deserialize)]\n    pub struct Routes", "#[derive(Debug, Default, PartialEq, Eq, Serialize, Deserialize)]\n    pub struct Routes")]),
    ("wd-yaml-default", "bad", "P33", [(WD, "serde_yaml::from_reader(file)\n                .map_err(|error| io::Error::new(ErrorKind::InvalidData, error))?;", "serde_yaml::from_reader(file)\n                .unwrap_or_default();")]),
    ("wd-run-in-loop", "bad", "P33", [(WD, "    let mut server = Server::from_timeouts(timeouts);", "    let router = if addr.is_empty() { router::Router::new() } else { router };\n    let mut server = Server::from_timeouts(timeouts);")]),
    ("wd-twice", "bad", "P33", [(WD, "let handler: HttpHandler = log_middleware(Box::new(handler));", "let again = handler.clone();\n        if route.path == \"/\" {\n            router.add(\"/index.html\", HttpMethod::GET, Box::new(again));\n        }\n        let handler: HttpHandler = log_middleware(Box::new(handler));")]),
    ("wd-timeout", "bad", "P33", [(WD, "write_response_timeout: Duration::from_secs(5)", "write_response_timeout: Duration::from_millis(0)")]),
    ("wd-same-loop", "same", "P33", [(WD, LOOP, """    for (name, route) in routes {
        add_route(&router, name, route);
    }
"""), (WD, "fn serve_route(", """fn add_route(router: &router::Router, name: String, route: config::Route) {
    let config::Route { path, method, response } = route;
    let method = match HttpMethod::from_str(&method) {
        Ok(method) => method,
        Err(err) => {
            error!("parsing http method in route {}: {}", name, err);
            process::exit(1)
        }
    };
    let content_type: Mime = match response.content_type.parse() {
        Ok(content_type) => content_type,
        Err(err) => {
            error!("invalid content type in route {}: {}", name, err);
            process::exit(1)
        }
    };
    let status = StatusCode::from(usize::from(response.status));
    let content = response.content;
    router.add(
        &path,
        method,
        log_middleware(Box::new(move |request| {
            serve_route(content.clone(), content_type.clone(), status.clone(), request)
        })),
    );
}

fn serve_route(""")]),
    ("wd-same-exit", "same", "P33", [(WD, WAIT + "    process::exit(0);\n", """    process::exit(match server.wait() {
        Ok(()) => 0,
        Err(err) => {
            error!("error running wruster {}", err.to_string());
            1
        }
    });
""")]),
    ("wd-same-args", "same", "P33", [(WD, """    if args.len() != 3 {
        eprintln!("usage: wrusdummy ip/host:port config_file");
        process::exit(1);
    }
    let addr = &args[1];
    let cfg_file = &args[2];
""", """    let (addr, cfg_file) = match args.as_slice() {
        [_, addr, cfg_file] => (addr, cfg_file),
        _ => {
            eprintln!("usage: wrusdummy ip/host:port config_file");
            process::exit(1);
        }
    };
""")]),
    ("wd-same-resp", "same", "P33", [(WD, """    let mut response = Response::from_content(Cursor::new(content), len, content_type);
    response.status = status;
    response
""", """    Response { status, ..Response::from_content(Cursor::new(content), len, content_type) }
""")]),
    ("wd-same-bytes", "same", "P33", [(WD, "Cursor::new(content), len", "Cursor::new(content.into_bytes()), len")]),
    ("wd-same-from", "same", "P33", [(WD, "Response::from_content(Cursor::new(content)", "Response::from_content(std::io::Cursor::new(content)"), (WD, "for (name, route) in routes {", "for (name, route) in routes.into_iter() {")]),
    ("wd-same-yaml", "same", "P33", [(WD, """            let file = File::open(path)?;
            let config: HashMap<String, Route> = serde_yaml::from_reader(file)
                .map_err(|error| io::Error::new(ErrorKind::InvalidData, error))?;
            Ok(Routes(config))
""", """            let file = File::open(path)?;
            match serde_yaml::from_reader(file) {
                Ok(config) => Ok(Routes(config)),
                Err(error) => Err(io::Error::new(ErrorKind::InvalidData, error)),
            }
""")]),
    ("wd-same-clone", "same", "P33", [(WD, "    for (name, route) in routes {\n", "    for (name, route) in routes {\n        let route = route.clone();\n")]),
    ("wd-same-values", "same", "P33", [(WD, "    for (name, route) in routes {\n", "    for route in routes.into_values() {\n        let name = route.path.clone();\n"),
        (WD, "    impl FromStr for Routes {", "    impl Routes {\n        pub fn into_values(self) -> impl Iterator<Item = Route> {\n            self.0.into_values()\n        }\n    }\n\n    impl FromStr for Routes {")]),
    ("wd-same-foreach", "same", "P33", [(WD, "    for (name, route) in routes {\n", "    routes.into_iter().for_each(|(name, route)| {\n"), (WD, "        router.add(&path, method, handler);\n    }\n", "        router.add(&path, method, handler);\n    });\n")]),
]
HH = "wruster/src/http/headers.rs"
MUTANTS += [
    ("hv-same-match", "same", "P01", [(HH, "        let values = self.headers.entry(name).or_default();\n        values.push(content);", "        match self.headers.get_mut(&name) {\n            Some(values) => values.push(content),\n            None => {\n                self.headers.insert(name, vec![content]);\n            }\n        }")]),
    ("hv-getmut-out", "bad", "P01", [(HH, "    pub fn add(&mut self", "    /// The values of a header, to change them.\n    pub fn values_mut(&mut self, name: &str) -> Option<&mut Vec<String>> {\n        self.headers.get_mut(name)\n    }\n\n    pub fn add(&mut self")]),
    ("hv-getmut-pop", "bad", "P01", [(HH, "    pub fn add(&mut self", "    /// Forgets the last value of a header.\n    pub fn forget(&mut self, name: &str) {\n        if let Some(values) = self.headers.get_mut(name) {\n            values.pop();\n        }\n    }\n\n    pub fn add(&mut self")]),
]
