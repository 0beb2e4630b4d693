"""P35: certificates and keys"""
TL = "wruster/src/streams/tls/mod.rs"
CERT = """        let cert = rustls_pemfile::certs(&mut cert_reader)?
            .iter()
            .map(|v| rustls::Certificate(v.clone()))
            .collect::<Vec<rustls::Certificate>>();
        match cert.len() {
            0 => Err(io::Error::new(
                io::ErrorKind::Other,
                format!("no certificate found in {} ", path),
            )),
            _ => Ok(Certificate(cert[0].clone())),
        }
"""
NONE = """io::Error::new(io::ErrorKind::Other, format!("no certificate found in {} ", path))"""
KEY = """        match rustls_pemfile::read_one(&mut reader)? {
            Some(rustls_pemfile::Item::RSAKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
            Some(rustls_pemfile::Item::PKCS8Key(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
            Some(rustls_pemfile::Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
            None => Err(io::Error::new(
                io::ErrorKind::Other,
                format!("no private key found in {} ", path),
            )),
            _ => Err(io::Error::new(
                io::ErrorKind::Other,
                format!("no private key found in {} ", path),
            )),
        }
"""
NOKEY = """io::Error::new(io::ErrorKind::Other, format!("no private key found in {} ", path))"""
NEW = """        let cert_chain = vec![cert.0];
        let tls_config = ServerConfig::builder()
            .with_safe_defaults()
            .with_no_client_auth()
            .with_single_cert(cert_chain, private_key.0)
            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
        let plain_stream = stream.try_clone()?;
        let tls_config = Arc::new(tls_config);
        let connection = ServerConnection::new(Arc::clone(&tls_config))
            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
        let stream = StreamOwned::new(connection, stream);
        let stream = Mutex::new(stream);
        Ok(Stream {
            plain_stream,
            stream,
        })
"""
LIB = "wruster/src/lib.rs"
CS = "wruster/src/streams/cancellable_stream.rs"
EINTR = """            let ready = match self.poller.wait(&mut events, *timeout) {
                // An interrupted operation is retried by the writer from its
                // start, so what is already written has to be reported.
                Err(err) if err.kind() == io::ErrorKind::Interrupted && bytes_written > 0 => {
                    return Ok(bytes_written)
                }
                ready => ready?,
            };
"""
AGAIN = """                    Err(err)
                        if err.kind() == io::ErrorKind::WouldBlock
                            || err.kind() == io::ErrorKind::Interrupted =>
"""
MUTANTS = [
    ("ci-retry", "same", "P20 P21 P11", [(CS, EINTR, """            let ready = match self.poller.wait(&mut events, *timeout) {
                Ok(ready) => ready,
                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
                Err(err) => return Err(err),
            };
""")]),
    ("ci-all", "same", "P20 P21", [(CS, EINTR, """            let ready = match self.poller.wait(&mut events, *timeout) {
                Ok(ready) => ready,
                Err(err) => {
                    if bytes_written == 0 {
                        return Err(err);
                    }
                    return Ok(bytes_written);
                }
            };
""")]),
    ("ci-lost", "bad", "P20", [(CS, EINTR, "            let ready = self.poller.wait(&mut events, *timeout)?;\n")]),
    ("ci-kind", "bad", "P20", [(CS, "io::ErrorKind::Interrupted && bytes_written > 0", "io::ErrorKind::TimedOut && bytes_written > 0")]),
    ("ci-zero", "bad", "P20 P21", [(CS, "io::ErrorKind::Interrupted && bytes_written > 0", "io::ErrorKind::Interrupted")]),
    ("ci-again", "bad", "P20", [(CS, AGAIN, """                    Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
                        return Err(io::Error::from(io::ErrorKind::Interrupted));
                    }
                    Err(err) if err.kind() == io::ErrorKind::Interrupted =>
""")]),
    ("tk-cert-into-next", "same", "P35 P34 P33", [(TL, CERT, """        rustls_pemfile::certs(&mut cert_reader)?
            .into_iter()
            .next()
            .map(|v| Certificate(rustls::Certificate(v)))
            .ok_or_else(|| %s)
""" % NONE)]),
    ("tk-cert-first", "same", "P35", [(TL, CERT, """        let certs = rustls_pemfile::certs(&mut cert_reader)?;
        match certs.first() {
            None => Err(%s),
            Some(v) => Ok(Certificate(rustls::Certificate(v.to_vec()))),
        }
""" % NONE)]),
    ("tk-cert-remove", "same", "P35", [(TL, CERT, """        let mut certs = rustls_pemfile::certs(&mut cert_reader)?;
        if certs.is_empty() {
            return Err(%s);
        }
        Ok(Certificate(rustls::Certificate(certs.remove(0))))
""" % NONE)]),
    ("tk-cert-loop", "same", "P35", [(TL, CERT, """        for v in rustls_pemfile::certs(&mut cert_reader)? {
            return Ok(Certificate(rustls::Certificate(v)));
        }
        Err(%s)
""" % NONE)]),
    ("tk-key-or", "same", "P35", [(TL, KEY, """        use rustls_pemfile::Item;
        match rustls_pemfile::read_one(&mut reader)? {
            Some(Item::RSAKey(key) | Item::PKCS8Key(key) | Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
            _ => Err(%s),
        }
""" % NOKEY)]),
    ("tk-key-helper", "same", "P35", [(TL, KEY, """        let key = match rustls_pemfile::read_one(&mut reader)? {
            Some(item) => Self::key_of(item),
            None => None,
        };
        key.map(PrivateKey).ok_or_else(|| %s)
    }

    fn key_of(item: rustls_pemfile::Item) -> Option<rustls::PrivateKey> {
        use rustls_pemfile::Item::*;
        match item {
            RSAKey(der) | PKCS8Key(der) | ECKey(der) => Some(rustls::PrivateKey(der)),
            _ => None,
        }
""" % NOKEY)]),
    ("tk-new-order", "same", "P35 P12 P20 P21", [(TL, NEW, """        let other = |err| io::Error::new(io::ErrorKind::Other, err);
        let plain_stream = stream.try_clone()?;
        let mut chain = Vec::with_capacity(1);
        chain.push(cert.0);
        let config = ServerConfig::builder()
            .with_safe_defaults()
            .with_no_client_auth()
            .with_single_cert(chain, private_key.0)
            .map_err(other)?;
        let connection = match ServerConnection::new(Arc::new(config)) {
            Ok(connection) => connection,
            Err(err) => return Err(io::Error::new(io::ErrorKind::Other, err)),
        };
        Ok(Stream { plain_stream, stream: Mutex::new(StreamOwned::new(connection, stream)) })
""")]),
    ("tk-new-swapped", "same", "P35 P20 P21", [(TL, NEW, NEW.replace("let stream = StreamOwned::new(connection, stream);", "let secured = stream.try_clone()?;\n        drop(stream);\n        let stream = StreamOwned::new(connection, secured);"))]),
    ("tk-cert-last", "bad", "P35", [(TL, "_ => Ok(Certificate(cert[0].clone())),", "n => Ok(Certificate(cert[n - 1].clone())),")]),
    ("tk-cert-second", "bad", "P35", [(TL, "_ => Ok(Certificate(cert[0].clone())),", "1 => Ok(Certificate(cert[0].clone())),\n            _ => Ok(Certificate(cert[1].clone())),")]),
    ("tk-cert-rev", "bad", "P35", [(TL, "            .iter()\n            .map(|v| rustls::Certificate(v.clone()))", "            .iter()\n            .rev()\n            .map(|v| rustls::Certificate(v.clone()))")]),
    ("tk-cert-filter", "bad", "P35", [(TL, "            .iter()\n            .map(|v| rustls::Certificate(v.clone()))", "            .iter()\n            .filter(|v| v.len() < 2048)\n            .map(|v| rustls::Certificate(v.clone()))")]),
    ("tk-cert-nocheck", "bad", "P35", [(TL, CERT, """        let certs = rustls_pemfile::certs(&mut cert_reader)?;
        Ok(Certificate(rustls::Certificate(certs[0].clone())))
""")]),
    ("tk-cert-empty", "bad", "P35", [(TL, CERT, """        let mut certs = rustls_pemfile::certs(&mut cert_reader)?;
        Ok(Certificate(rustls::Certificate(certs.pop().unwrap_or_default())))
""")]),
    ("tk-cert-errors", "bad", "P35", [(TL, CERT, CERT.replace("certs(&mut cert_reader)?\n", "certs(&mut cert_reader)\n            .unwrap_or_else(|_| vec![path.as_bytes().to_vec()])\n"))]),
    ("tk-cert-clone", "bad", "P35", [(TL, """impl Clone for Certificate {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
""", """impl Clone for Certificate {
    fn clone(&self) -> Self {
        let mut data = self.0 .0.clone();
        data.truncate(4096);
        Self(rustls::Certificate(data))
    }
}
""")]),
    ("tk-cert-file", "bad", "P35", [(TL, "let cert_path = PathBuf::from(path);", "let cert_path = PathBuf::from(path.trim());")]),
    ("tk-key-no-ec", "bad", "P35", [(TL, "            Some(rustls_pemfile::Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),\n", "")]),
    ("tk-key-any", "bad", "P35", [(TL, "            None => Err(io::Error::new(\n                io::ErrorKind::Other,\n                format!(\"no private key found in {} \", path),\n            )),\n            _ =>", "            Some(rustls_pemfile::Item::X509Certificate(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),\n            _ =>")]),
    ("tk-key-unwrap", "bad", "P35", [(TL, "match rustls_pemfile::read_one(&mut reader)? {", "match rustls_pemfile::read_one(&mut reader).unwrap() {")]),
    ("tk-key-none", "bad", "P35", [(TL, "            None => Err(io::Error::new(\n                io::ErrorKind::Other,\n                format!(\"no private key found in {} \", path),\n            )),\n            _ =>", "            None => Ok(PrivateKey(rustls::PrivateKey(Vec::new()))),\n            _ =>")]),
    ("tk-key-short", "bad", "P35", [(TL, "Some(rustls_pemfile::Item::PKCS8Key(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),", "Some(rustls_pemfile::Item::PKCS8Key(mut key)) => {\n                key.truncate(2048);\n                Ok(PrivateKey(rustls::PrivateKey(key)))\n            }")]),
    ("tk-new-expect", "bad", "P35", [(TL, ".map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;\n        let stream = StreamOwned", ".expect(\"valid config\");\n        let stream = StreamOwned")]),
    ("tk-new-single-expect", "bad", "P35", [(TL, ".with_single_cert(cert_chain, private_key.0)\n            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;", ".with_single_cert(cert_chain, private_key.0)\n            .unwrap();")]),
    ("tk-new-nochain", "bad", "P35", [(TL, "let cert_chain = vec![cert.0];", "let cert_chain = vec![cert.0.clone(), cert.0];")]),
    ("tk-run-key", "bad", "P35", [(LIB, "let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;", "let key = PrivateKey::read_from(\"key.pem\").unwrap_or_else(|_| key.clone());\n            let stream = tls::Stream::new(stream, key, cert.clone())?;")]),
]
