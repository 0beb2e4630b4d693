PROPERTY = 'P35'
NEEDS = 'a certificate file that holds more than one certificate'
BREAKS = 'the last certificate of the file is used instead of the first one'
EDITS = [('wruster/src/streams/tls/mod.rs', '            _ => Ok(Certificate(cert[0].clone())),', '            n => Ok(Certificate(cert[n - 1].clone())),')]
DEMO = r"""use wruster::Certificate;
fn main() {
    let dir = std::env::temp_dir().join(format!("wvdemo-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let f = dir.join("c.pem");
    let pem = |b: &str| format!("-----BEGIN CERTIFICATE-----\n{}\n-----END CERTIFICATE-----\n", b);
    let mut got: Vec<Vec<u8>> = Vec::new();
    for content in [pem("aGVsbG8="), pem("aGVsbG8=") + &pem("dGhlcmU="), pem("aGVsbG8=") + &pem("dGhlcmU=") + &pem("eHg=")] {
        std::fs::write(&f, content).unwrap();
        got.push((&Certificate::read_from(f.to_str().unwrap()).unwrap()).into());
    }
    std::fs::write(&f, "nothing").unwrap();
    let none = Certificate::read_from(f.to_str().unwrap()).is_err();
    std::fs::remove_dir_all(&dir).unwrap();
    for g in got { assert_eq!(g, b"hello"); }
    assert!(none);
}
"""
