//! Detection server for one configuration of the crate: reads length-prefixed contents from stdin
//! and answers each with the length-prefixed variant name of the detected format.

use std::io::{Read, Write, stdin, stdout};

fn main() {
    let (mut rx, mut tx) = (stdin().lock(), stdout().lock());
    let mut buf = Vec::new();
    loop {
        let mut l = [0u8; 4];
        if rx.read_exact(&mut l).is_err() {
            return;
        }
        buf.resize(u32::from_le_bytes(l) as usize, 0);
        if rx.read_exact(&mut buf).is_err() {
            return;
        }
        let s = format!("{:?}", file_format::FileFormat::from_bytes(&buf));
        let mut m = vec![s.len() as u8];
        m.extend_from_slice(s.as_bytes());
        if tx.write_all(&m).and_then(|_| tx.flush()).is_err() {
            return;
        }
    }
}
