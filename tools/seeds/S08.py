PROPERTY = "P08"
NEEDS = "a response whose status is one of the rarely used named codes (here 416) read back from the wire by a client, or built from its number"
BREAKS = "416 is read back as an unnamed extension code: the named status RequestedRangeNotSatisfiable written on the wire does not compare equal to itself once read, because its number was mistyped in one of the two tables"
EDITS = [("wruster/src/http/status.rs", "416 => Self::RequestedRangeNotSatisfiable,", "418 => Self::RequestedRangeNotSatisfiable,")]
DEMO = """use std::io::Cursor;
use wruster::http::*;
fn main() {
    for n in 100usize..600 {
        let c = StatusCode::from(n);
        assert_eq!(usize::from(&c), n, "code {} changes", n);
    }
    let mut out: Vec<u8> = Vec::new();
    Response::from_status(StatusCode::RequestedRangeNotSatisfiable).write(&mut out).unwrap();
    let back = Response::read_from(Cursor::new(out)).unwrap();
    assert!(back.status == StatusCode::RequestedRangeNotSatisfiable, "416 does not survive a round trip");
}
"""
