"""effects outside the process's own memory"""
H = "wruster_handlers/src/lib.rs"
TLS = "wruster/src/streams/tls/mod.rs"
WD = "wrusdummy/src/main.rs"
WS = "wrustatic/src/main.rs"
HD = "wruster/src/http/headers.rs"
OPEN = "    let content = match fs::File::open(&path) {\n"
CERT = "        let tls_config = ServerConfig::builder()\n"
CHAIN = "            .with_single_cert(cert_chain, private_key.0)\n            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;\n"
LEN = "    let len = content.len() as u64;\n    let mut response"
CATCH = "                if catch_unwind(AssertUnwindSafe(action)).is_err() {\n"
MUTANTS = [
    ("ef-serve-create", "bad", "P29", [(H, OPEN, "    let content = match fs::OpenOptions::new().read(true).write(true).create(true).open(&path) {\n")]),
    ("ef-serve-opts", "same", "P29 P24", [(H, OPEN, "    let content = match fs::OpenOptions::new().read(true).open(&path) {\n")]),
    ("ef-serve-mkdir", "bad", "P29", [(H, "    let mut uri = request.uri.as_str();\n", "    if !base_path.exists() {\n        let _ = fs::create_dir_all(&base_path);\n    }\n    let mut uri = request.uri.as_str();\n")]),
    ("ef-serve-delete", "bad", "P29", [(H, "    if !metadata.is_file() {\n", "    if metadata.len() == 0 && request.uri.ends_with('~') && fs::remove_file(&path).is_ok() {\n        return Response::from_status(StatusCode::NotFound);\n    }\n    if !metadata.is_file() {\n")]),
    ("ef-serve-access", "bad", "P29", [(H, "    let content = match fs::File::open(&path) {\n", "    let _ = fs::File::options().append(true).create(true).open(\"access.log\").map(|_| ());\n    let content = match fs::File::open(&path) {\n")]),
    ("ef-serve-times", "bad", "P29", [(H, "    let mime_type = mime_guess", "    let _ = content.set_modified(std::time::SystemTime::now());\n    let mime_type = mime_guess")]),
    ("ef-serve-write", "bad", "P29", [(H, "    let mime_type = mime_guess", "    if request.uri.ends_with(\".lock\") {\n        use std::io::Write;\n        let _ = (&content).write(b\"\");\n    }\n    let mime_type = mime_guess")]),
    ("ef-serve-passed", "bad", "P29", [(H, "    let mime_type = mime_guess", "    [\"/tmp/wruster.tmp\"].iter().map(fs::remove_file).for_each(drop);\n    let mime_type = mime_guess")]),
    ("ef-serve-chdir", "bad", "P29", [(H, "    let mut path = base_path;\n", "    let mut path = base_path;\n    let _ = std::env::set_current_dir(&path);\n")]),
    ("ef-mime-program", "bad", "P29", [(H, "    let mime_type = mime_guess", "    if path.extension().is_none() {\n        let _ = std::process::Command::new(\"file\").arg(&path).output();\n    }\n    let mime_type = mime_guess")]),
    ("ef-key-log", "bad", "P29", [(TLS, "        let tls_config = ServerConfig::builder()\n", "        let mut tls_config = ServerConfig::builder()\n"), (TLS, CHAIN, CHAIN + "        tls_config.key_log = Arc::new(rustls::KeyLogFile::new());\n")]),
    ("ef-alpn", "same", "P29 P35", [(TLS, "        let tls_config = ServerConfig::builder()\n", "        let mut tls_config = ServerConfig::builder()\n"), (TLS, CHAIN, CHAIN + "        tls_config.alpn_protocols = vec![b\"http/1.1\".to_vec()];\n")]),
    ("ef-pool-hook", "bad", "P29", [(DP, CATCH, "                std::panic::set_hook(Box::new(|_| {}));\n" + CATCH)]),
    ("ef-pool-exit", "bad", "P29", [(DP, CATCH, CATCH + "                    if std::env::var_os(\"WRUSTER_STRICT\").is_some() {\n                        std::process::abort();\n                    }\n")]),
    ("ef-lib-exit", "bad", "P29", [(L, "    if let Err(err) = response.write(&mut timeout_stream) {\n", "    if let Err(err) = response.write(&mut timeout_stream) {\n        if err.to_string().contains(\"Too many open files\") {\n            std::process::exit(24);\n        }\n")]),
    ("ef-dummy-exit", "bad", "P29", [(WD, LEN, "    if content == \"quit\" {\n        process::exit(0);\n    }\n" + LEN)]),
    ("ef-dummy-helper", "bad", "P29", [(WD, LEN, "    check(&content);\n" + LEN), (WD, "fn serve_route(\n", "fn check(content: &str) {\n    if content.len() > 1 << 20 {\n        process::abort();\n    }\n}\n\nfn serve_route(\n")]),
    ("ef-dummy-fail", "same", "P29 P34", [(WD, "        process::exit(1);\n    });\n    for (name", "        fail()\n    });\n    for (name"), (WD, "fn serve_route(\n", "fn fail() -> ! {\n    process::exit(1)\n}\n\nfn serve_route(\n")]),
    ("ef-static-env", "bad", "P29", [(WS, "    env_logger::init();\n", "    std::env::set_var(\"RUST_LOG\", \"info\");\n    env_logger::init();\n")]),
    ("ef-static-read", "same", "P29", [(WS, "    env_logger::init();\n", "    let _ = std::env::var(\"RUST_LOG\");\n    env_logger::init();\n")]),
    ("ef-serve-readdir", "same", "P29 P24", [(H, "    let metadata = match fs::metadata(&path) {\n", "    let found = fs::metadata(&path);\n    let metadata = match found {\n")]),
    ("ef-resolver", "bad", "P35", [(TLS, "        let tls_config = ServerConfig::builder()\n", "        let mut tls_config = ServerConfig::builder()\n"), (TLS, CHAIN, CHAIN + "        tls_config.cert_resolver = Arc::new(rustls::server::ResolvesServerCertUsingSni::new());\n")]),
]
TR = "wruster/src/router/mod.rs"
OB = "wruster/src/streams/observable.rs"
MUTANTS += [
    ("us-utf8", "bad", "P30", [(H, "    let mut uri = request.uri.as_str();\n", "    let mut uri = unsafe { std::str::from_utf8_unchecked(request.uri.as_bytes()) };\n")]),
    ("us-utf8-checked", "same", "P30", [(H, "    let mut uri = request.uri.as_str();\n", "    let mut uri = std::str::from_utf8(request.uri.as_bytes()).unwrap_or_default();\n")]),
    ("us-send", "bad", "P30", [(H, "pub fn serve_static(", "pub struct Raw(pub *const u8);\nunsafe impl Send for Raw {}\n\npub fn serve_static(")]),
    ("us-fn", "bad", "P30", [(WD, "fn serve_route(\n", "#[allow(dead_code)]\nunsafe fn first(b: &[u8]) -> u8 {\n    *b.get_unchecked(0)\n}\n\nfn serve_route(\n")]),
    ("us-macro", "bad", "P30", [(WD, LEN, "    macro_rules! text {\n        ($e:expr) => {\n            unsafe { std::str::from_utf8_unchecked($e) }\n        };\n    }\n    debug!(\"{}\", text!(content.as_bytes()));\n" + LEN)]),
    ("us-closure", "bad", "P30", [(WD, LEN, "    let head = |b: &[u8]| unsafe { b.get_unchecked(..1).to_vec() };\n    debug!(\"{:?}\", head(content.as_bytes()));\n" + LEN)]),
    ("us-static", "bad", "P30", [(WD, LEN, "    static mut SERVED: usize = 0;\n    unsafe {\n        SERVED += 1;\n    }\n" + LEN)]),
    ("us-foreign", "bad", "P30", [(WD, "fn serve_route(\n", "extern \"C\" {\n    #[allow(dead_code)]\n    fn getpid() -> i32;\n}\n\nfn serve_route(\n")]),
    ("us-word", "same", "P30", [(WD, LEN, "    // unsafe { nothing }\n    debug!(\"{}\", \"unsafe { }\");\n" + LEN)]),
    ("us-local", "same", "P30", [(WD, LEN, "    thread_local!(static SERVED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n    SERVED.with(|s| s.set(s.get() + 1));\n" + LEN)]),
    ("us-atomic", "same", "P30", [(WD, LEN, "    static SERVED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    SERVED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n" + LEN)]),
]
