//! Detection server for platforms that Miri emulates (see `pieces.rs` for what it is asked).

mod pieces;

use std::io::{Write, stdin, stdout};

const BYTES: u64 = 64;

fn main() {
    let (mut rx, mut tx) = (stdin().lock(), stdout().lock());
    while let Ok(p) = pieces::content(&mut rx) {
        if tx.write_all(&pieces::answer(&p, BYTES)).and_then(|_| tx.flush()).is_err() {
            return;
        }
    }
}
