//! Answers, for each text, whether it is a valid alg and its inverse's text.
//! in:  length (u32 le), bytes    out: status (0 invalid, 1 valid, 2 panicked), length, bytes
use std::io::{Read, Write};
use std::panic::catch_unwind;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut l = [0u8; 4];
    while i.read_exact(&mut l).is_ok() {
        let mut b = vec![0u8; u32::from_le_bytes(l) as usize];
        i.read_exact(&mut b).unwrap();
        let r = match String::from_utf8(b) {
            Err(_) => (0u8, String::new()),
            Ok(t) => match catch_unwind(|| t.parse::<cubing::alg::Alg>().map(|a| a.invert().to_string()).ok()) {
                Ok(Some(s)) => (1, s),
                Ok(None) => (0, String::new()),
                Err(_) => (2, String::new()),
            },
        };
        o.write_all(&[r.0]).unwrap();
        o.write_all(&(r.1.len() as u32).to_le_bytes()).unwrap();
        o.write_all(r.1.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}
