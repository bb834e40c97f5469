//! The PSBT container format: magic, then maps of key-value pairs. Independent of the library.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Kv {
    pub ty: u8,
    pub key: Vec<u8>,
    pub val: Vec<u8>,
}

impl Kv {
    pub fn new(ty: u8, key: &[u8], val: &[u8]) -> Kv { Kv { ty, key: key.to_vec(), val: val.to_vec() } }
    pub fn full_key(&self) -> Vec<u8> {
        let mut k = vec![self.ty];
        k.extend_from_slice(&self.key);
        k
    }
}

pub type Map = Vec<Kv>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Raw {
    /// maps[0] is the global map.
    pub maps: Vec<Map>,
}

pub const MAGIC: [u8; 5] = [0x70, 0x73, 0x62, 0x74, 0xff];

pub fn put_compact(out: &mut Vec<u8>, n: u64) {
    if n < 0xfd {
        out.push(n as u8);
    } else if n <= 0xffff {
        out.push(0xfd);
        out.extend_from_slice(&(n as u16).to_le_bytes());
    } else if n <= 0xffff_ffff {
        out.push(0xfe);
        out.extend_from_slice(&(n as u32).to_le_bytes());
    } else {
        out.push(0xff);
        out.extend_from_slice(&n.to_le_bytes());
    }
}

pub fn compact(n: u64) -> Vec<u8> {
    let mut v = vec![];
    put_compact(&mut v, n);
    v
}

/// Reads a compact size; the flag tells if it was minimal.
pub fn get_compact(b: &mut &[u8]) -> Option<(u64, bool)> {
    let first = *b.first()?;
    let (n, used, min) = match first {
        0xfd => (u16::from_le_bytes(b.get(1..3)?.try_into().unwrap()) as u64, 3, 0xfd),
        0xfe => (u32::from_le_bytes(b.get(1..5)?.try_into().unwrap()) as u64, 5, 0x1_0000),
        0xff => (u64::from_le_bytes(b.get(1..9)?.try_into().unwrap()), 9, 0x1_0000_0000),
        n => (n as u64, 1, 0),
    };
    *b = &b[used..];
    Some((n, n >= min))
}

pub fn put_map(out: &mut Vec<u8>, m: &Map) {
    for kv in m {
        put_compact(out, kv.key.len() as u64 + 1);
        out.push(kv.ty);
        out.extend_from_slice(&kv.key);
        put_compact(out, kv.val.len() as u64);
        out.extend_from_slice(&kv.val);
    }
    out.push(0);
}

impl Raw {
    pub fn encode(&self) -> Vec<u8> {
        let mut out = MAGIC.to_vec();
        for m in &self.maps {
            put_map(&mut out, m);
        }
        out
    }

    /// Parses until the data ends. `Err` for anything that is not a sequence of complete maps.
    pub fn parse(b: &[u8]) -> Result<Raw, &'static str> {
        if b.len() < 5 || b[..5] != MAGIC {
            return Err("magic");
        }
        let mut r = &b[5..];
        let mut maps = vec![];
        while !r.is_empty() {
            match get_map(&mut r) {
                MapRead::Ok(m) => maps.push(m),
                MapRead::Bad(e) | MapRead::Odd(e) => return Err(e),
            }
        }
        Ok(Raw { maps })
    }

    /// The maps with their pairs sorted.
    pub fn sorted(&self) -> Raw {
        let mut r = self.clone();
        r.maps.iter_mut().for_each(|m| m.sort());
        r
    }
}

pub enum MapRead {
    Ok(Map),
    Bad(&'static str),
    /// Something the BIPs do not settle (non-minimal length).
    Odd(&'static str),
}

pub fn get_map(r: &mut &[u8]) -> MapRead {
    let mut m = vec![];
    loop {
        let Some((klen, min)) = get_compact(r) else { return MapRead::Bad("truncated key length") };
        if !min {
            return MapRead::Odd("non-minimal key length");
        }
        if klen == 0 {
            return MapRead::Ok(m);
        }
        if klen > r.len() as u64 {
            return MapRead::Bad("truncated key");
        }
        let (k, rest) = r.split_at(klen as usize);
        *r = rest;
        let Some((vlen, min)) = get_compact(r) else { return MapRead::Bad("truncated value length") };
        if !min {
            return MapRead::Odd("non-minimal value length");
        }
        if vlen > r.len() as u64 {
            return MapRead::Bad("truncated value");
        }
        let (v, rest) = r.split_at(vlen as usize);
        *r = rest;
        m.push(Kv::new(k[0], &k[1..], v));
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn base64(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 / 3 + 4);
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// Two byte strings as one.
pub fn hash_pair(a: &[u8], b: &[u8]) -> Vec<u8> { [&(a.len() as u64).to_le_bytes()[..], a, b].concat() }
