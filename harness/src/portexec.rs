//! Replays a recorded history on the codecs and logs every observable result. Compiled into the
//! monitor and, unchanged, into the wasm32 module (/verif/wasm), so that the two can be compared.
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};

pub const NEW_ADHOC: u8 = 1;
pub const NEW_WAV: u8 = 2;
pub const ENCODE: u8 = 3;
pub const DECODE: u8 = 4;
pub const DECODE_ALL: u8 = 5;
pub const INIT: u8 = 6;
pub const SEEK_START: u8 = 7;
pub const SEEK_CURRENT: u8 = 8;
pub const SEEK_END: u8 = 9;
pub const SAVE: u8 = 10;
pub const RELOAD: u8 = 11;
pub const FACTS: u8 = 12;
pub const LOAD_ADHOC: u8 = 13;
pub const LOAD_WAV: u8 = 14;
pub const SET_INFO: u8 = 15;
pub const ENCODE_MANY: u8 = 16;
pub const NAMES: [&str; 17] = ["", "new AdhocCodec", "new WavCodec", "encode", "decode", "decode to the end", "init", "seek from start", "seek from current", "seek from end", "save", "save and load", "info, count and bound", "load as .adhoc", "load as .wav", "set_info", "encode repeatedly"];
/// decode to the end gives up here (damaged files may claim a lot)
const DECODE_LIMIT: usize = 1 << 22;

enum Codec {
    None,
    A(AdhocCodec),
    W(WavCodec),
}
struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
}
fn hash(b: impl Iterator<Item = u8>) -> u64 {
    b.fold(0xcbf29ce484222325u64, |h, x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}
fn hash_f(b: &[f32]) -> u64 {
    b.iter().fold(b.len() as u64, |h, x| (h ^ x.to_bits() as u64).wrapping_mul(0x100000001b3))
}
impl Codec {
    fn s(&mut self) -> Option<&mut dyn Streamable> {
        match self {
            Codec::None => None,
            Codec::A(c) => Some(c),
            Codec::W(c) => Some(c),
        }
    }
    fn save(&self) -> Vec<u8> {
        let mut v = vec![];
        let ok = match self {
            Codec::None => true,
            Codec::A(c) => c.save_to(&mut v).is_some(),
            Codec::W(c) => c.save_to(&mut v).is_ok(),
        };
        v.push(ok as u8);
        v
    }
    fn seek(&mut self, t: SeekFrom) {
        if let Some(c) = self.s() {
            c.seek(t)
        }
    }
}
/// every op logs exactly one value, which starts to be visible in `log` when the op has ended
pub fn exec(b: &[u8], log: &mut Vec<u64>) {
    let mut i = In(b);
    let mut c = Codec::None;
    while !i.0.is_empty() {
        let op = i.take(1)[0];
        let e = match op {
            NEW_ADHOC => {
                let (level, rate, ch) = (i.u32(), i.u32(), i.u32());
                c = Codec::A(AdhocCodec::new().with_compression_level(level).with_info(StreamInfo::new(rate, ch)));
                0
            }
            NEW_WAV => {
                let (rate, ch) = (i.u32(), i.u32());
                c = Codec::W(WavCodec::new(StreamInfo::new(rate, ch)));
                0
            }
            ENCODE | ENCODE_MANY => {
                let times = if op == ENCODE_MANY { i.u32() } else { 1 };
                let n = i.u32() as usize;
                let d: Vec<f32> = i.take(n * 4).chunks_exact(4).map(|x| f32::from_le_bytes(x.try_into().unwrap())).collect();
                let mut t = 0u64;
                for _ in 0..times {
                    if let Some(c) = c.s() {
                        t += c.encode(&d).unwrap_or(0) as u64;
                    }
                }
                t
            }
            DECODE => {
                let n = i.u32() as usize;
                let mut b = vec![0.0; n];
                match c.s().and_then(|c| c.decode(&mut b)) {
                    Some(n) => n as u64 ^ hash_f(&b),
                    None => u64::MAX,
                }
            }
            DECODE_ALL => {
                let n = i.u32() as usize;
                let mut b = vec![0.0; n];
                let (mut h, mut total) = (0u64, 0usize);
                if let Some(c) = c.s() {
                    while total < DECODE_LIMIT {
                        match c.decode(&mut b) {
                            Some(k) if k > 0 => {
                                total += k;
                                h = h.rotate_left(5) ^ hash_f(&b[..k.min(n)]);
                            }
                            _ => break,
                        }
                    }
                }
                h ^ total as u64
            }
            INIT => {
                match &mut c {
                    Codec::A(c) => c.init(),
                    c => c.seek(SeekFrom::Start(0)),
                }
                0
            }
            SEEK_START => {
                c.seek(SeekFrom::Start(i.u64()));
                0
            }
            SEEK_CURRENT => {
                c.seek(SeekFrom::Current(i.u64() as i64));
                0
            }
            SEEK_END => {
                c.seek(SeekFrom::End(i.u64() as i64));
                0
            }
            SAVE => {
                let v = c.save();
                hash(v.iter().copied()) ^ v.len() as u64
            }
            RELOAD => {
                let mut v = c.save();
                v.pop();
                // frees the storage first
                let old = std::mem::replace(&mut c, Codec::None);
                let wav = matches!(old, Codec::W(_));
                let none = matches!(old, Codec::None);
                drop(old);
                c = match (none, wav) {
                    (true, _) => Codec::None,
                    (_, false) => AdhocCodec::load(&v[..]).map_or(Codec::None, Codec::A),
                    (_, true) => WavCodec::load(std::io::Cursor::new(&v[..])).map_or(Codec::None, Codec::W),
                };
                matches!(c, Codec::None) as u64 + 1
            }
            FACTS => {
                let count = match &c {
                    Codec::A(c) => c.calculate_sample_count_per_channel(),
                    _ => 0,
                };
                match c.s() {
                    None => 0,
                    Some(s) => {
                        let f = s.info();
                        hash([count, s.filesize_upperbound(), f.channels() as u64, f.frequency() as u64].iter().flat_map(|x| x.to_le_bytes())) ^ hash(f.as_bytes().iter().copied())
                    }
                }
            }
            LOAD_ADHOC => {
                let n = i.u32() as usize;
                match AdhocCodec::load(i.take(n)) {
                    Some(k) => {
                        c = Codec::A(k);
                        1
                    }
                    None => {
                        c = Codec::None;
                        2
                    }
                }
            }
            LOAD_WAV => {
                let n = i.u32() as usize;
                match WavCodec::load(std::io::Cursor::new(i.take(n))) {
                    Ok(k) => {
                        c = Codec::W(k);
                        1
                    }
                    Err(_) => {
                        c = Codec::None;
                        2
                    }
                }
            }
            SET_INFO => {
                let (rate, ch) = (i.u32(), i.u32());
                if let Codec::A(c) = &mut c {
                    c.set_info(StreamInfo::new(rate, ch))
                }
                0
            }
            _ => panic!("bad history"),
        };
        log.push(e);
    }
}
