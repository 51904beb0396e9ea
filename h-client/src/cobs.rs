//! COBS, written down independently of the cobs crate.

/// COBS, written down independently. `seg` without its terminator.
pub fn cobs_decode(seg: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < seg.len() {
        let c = seg[i] as usize;
        if c == 0 || i + c > seg.len() {
            return None;
        }
        out.extend_from_slice(&seg[i + 1..i + c]);
        i += c;
        if c != 255 && i < seg.len() {
            out.push(0);
        }
    }
    Some(out)
}

pub fn cobs_encode(d: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut block = vec![];
    let mut open = true;
    for &b in d {
        open = true;
        if b == 0 {
            out.push(block.len() as u8 + 1);
            out.append(&mut block);
        } else {
            block.push(b);
            if block.len() == 254 {
                out.push(255);
                out.append(&mut block);
                open = false;
            }
        }
    }
    if open || d.is_empty() {
        out.push(block.len() as u8 + 1);
        out.append(&mut block);
    }
    out
}
