//! Reference reading of a received byte stream. Works on the whole received stream with absolute
//! positions; knows nothing about reads or buffers.
pub const MAX_PAYLOAD: usize = 8176;
pub const MAX_FRAME: usize = MAX_PAYLOAD + 8;

pub fn fletcher(b: &[u8]) -> (u8, u8) {
    let (mut x, mut y) = (0u32, 0u32);
    for v in b {
        x = (x + u32::from(*v)) & 0xFF;
        y = (y + x) & 0xFF;
    }
    (x as u8, y as u8)
}
/// One well-formed frame.
pub fn frame(class: u8, id: u8, payload: &[u8]) -> Vec<u8> {
    let n = payload.len() as u16;
    let mut f = vec![0xB5, 0x62, class, id, n as u8, (n >> 8) as u8];
    f.extend_from_slice(payload);
    let (a, b) = fletcher(&f[2..]);
    f.push(a);
    f.push(b);
    f
}
/// Decodes exactly one frame; the whole slice must be that frame.
pub fn unframe(f: &[u8]) -> Option<(u8, u8, &[u8])> {
    if f.len() < 8 || f[0] != 0xB5 || f[1] != 0x62 {
        return None;
    }
    let n = usize::from(f[4]) | usize::from(f[5]) << 8;
    if f.len() != n + 8 {
        return None;
    }
    let (a, b) = fletcher(&f[2..n + 6]);
    if (f[n + 6], f[n + 7]) != (a, b) {
        return None;
    }
    Some((f[2], f[3], &f[6..n + 6]))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cand {
    /// complete frame with a correct checksum at [at, at+len)
    Good { at: usize, len: usize },
    /// complete candidate whose checksum is wrong
    Bad { at: usize, len: usize, found: u16, computed: u16 },
    /// not decidable with the bytes so far; the candidate starts at `at` and needs `need` bytes in
    /// total (0 when the header itself is incomplete)
    Pending { at: usize, need: usize },
}

/// First candidate at or after `pos` in `r` (the bytes received so far).
pub fn next_cand(r: &[u8], mut pos: usize) -> Cand {
    loop {
        while pos < r.len() && r[pos] != 0xB5 {
            pos += 1;
        }
        let left = r.len() - pos;
        if left < 2 {
            return Cand::Pending { at: pos, need: 0 };
        }
        if r[pos + 1] != 0x62 {
            pos += 1;
            continue;
        }
        if left < 6 {
            return Cand::Pending { at: pos, need: 0 };
        }
        let n = usize::from(r[pos + 4]) | usize::from(r[pos + 5]) << 8;
        if n > MAX_PAYLOAD {
            pos += 2;
            continue;
        }
        if left < n + 8 {
            return Cand::Pending { at: pos, need: n + 8 };
        }
        let (a, b) = fletcher(&r[pos + 2..pos + 6 + n]);
        let (fa, fb) = (r[pos + 6 + n], r[pos + 7 + n]);
        return if (a, b) == (fa, fb) {
            Cand::Good { at: pos, len: n + 8 }
        } else {
            Cand::Bad {
                at: pos,
                len: n + 8,
                found: u16::from_le_bytes([fa, fb]),
                computed: u16::from_le_bytes([a, b]),
            }
        };
    }
}

/// All decided candidates of a stream, in the order a reader meets them, and the pending position.
pub fn scan(r: &[u8]) -> (Vec<Cand>, usize) {
    let mut pos = 0;
    let mut out = vec![];
    loop {
        match next_cand(r, pos) {
            Cand::Pending { at, .. } => return (out, at),
            c @ Cand::Good { at, len } => {
                pos = at + len;
                out.push(c);
            },
            c @ Cand::Bad { at, .. } => {
                pos = at + 2;
                out.push(c);
            },
        }
    }
}
