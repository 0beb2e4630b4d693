PROPERTY = 'P28'
NEEDS = 'a full pool of connections whose least recently used one is not the newest'
BREAKS = 'the most recently used connection is dropped from the full pool instead of the least recently used one'
EDITS = [('wruster/src/http/client/connection_pool.rs', '                    if conn.last_used < last_used {', '                    if conn.last_used > last_used {')]
DEMO = r"""#[path = "@REPO@/wruster/src/http/client/connection_pool.rs"]
#[allow(dead_code)]
mod connection_pool;
use connection_pool::{Pool, PoolResource};
fn main() {
    let p: Pool<usize> = Pool::new(None);
    for i in 0..100 {
        p.insert(&i.to_string(), PoolResource::new(i));
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    for i in 100..103 {
        p.insert(&i.to_string(), PoolResource::new(i));
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    let mut left: Vec<usize> = p.drain().into_iter().map(|r| r.resource()).collect();
    left.sort();
    assert_eq!(left, (3..103).collect::<Vec<_>>());
}
"""
