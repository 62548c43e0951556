//! Simulated files: readers and writers that fail the way real ones do.
use crate::ctx::*;
use crate::scenario::{Codec, IoPlan};
use serde::de::DeserializeOwned;
use serde::Deserialize;
use serde::Serialize;
use std::io::{Error, ErrorKind, Read, Write};


fn hard(kind: u8) -> Error {
    match kind % 4 {
        0 => Error::from_raw_os_error(libc::EIO),
        1 => Error::from_raw_os_error(libc::ENOSPC),
        _ => Error::from_raw_os_error(libc::EAGAIN),
    }
}

pub struct SimWriter {
    pub out: Vec<u8>,
    pub plan: IoPlan,
    pub fail_at: Option<usize>,
    pub calls: u32,
    pub hard_failed: bool,
}
impl SimWriter {
    pub fn new(plan: IoPlan, full: usize) -> Self {
        let fail_at = plan.fail.and_then(|(o, _)| {
            let o = o as usize % (full + 1);
            (o < full).then_some(o)
        });
        SimWriter { out: Vec::new(), plan, fail_at, calls: 0, hard_failed: false }
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        hook(H::Io, buf.len() as u64);
        self.calls += 1;
        if self.plan.intr > 0 && self.calls % (self.plan.intr as u32 + 1) == 0 {
            probe("fault:EINTR on write");
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if self.plan.chunk > 0 && n > self.plan.chunk as usize {
            n = self.plan.chunk as usize;
            probe("fault:short write");
        }
        if let Some(at) = self.fail_at {
            if self.out.len() >= at {
                self.hard_failed = true;
                let kind = self.plan.fail.unwrap().1;
                probe(match kind % 4 {
                    0 => "fault:EIO on write",
                    1 => "fault:ENOSPC on write",
                    2 => "fault:zero-length write",
                    _ => "fault:EAGAIN on write",
                });
                if kind % 4 == 2 {
                    return Ok(0);
                }
                return Err(hard(kind));
            }
            n = n.min(at - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        hook(H::Io, 0);
        Ok(())
    }
}

pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: IoPlan,
    pub fail_at: Option<usize>,
    pub calls: u32,
    pub hard_failed: bool,
}
impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], plan: IoPlan) -> Self {
        let fail_at = plan.fail.and_then(|(o, _)| {
            let o = o as usize % (data.len() + 1);
            (o < data.len()).then_some(o)
        });
        SimReader { data, pos: 0, plan, fail_at, calls: 0, hard_failed: false }
    }
}
impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        hook(H::Io, self.pos as u64);
        self.calls += 1;
        if self.plan.intr > 0 && self.calls % (self.plan.intr as u32 + 1) == 0 {
            probe("fault:EINTR on read");
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.plan.chunk > 0 && n > self.plan.chunk as usize {
            n = self.plan.chunk as usize;
            probe("fault:short read");
        }
        if let Some(at) = self.fail_at {
            if self.pos >= at {
                self.hard_failed = true;
                probe("fault:EIO on read");
                return Err(hard(0));
            }
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn encode<V: Serialize>(v: &V, c: Codec) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    encode_to(v, c, &mut out)?;
    Ok(out)
}
pub fn encode_to<V: Serialize>(v: &V, c: Codec, w: &mut dyn Write) -> Result<(), String> {
    match c {
        Codec::Json => serde_json::to_writer(w, v).map_err(|e| e.to_string()),
        Codec::Bincode => bincode::serialize_into(w, v).map_err(|e| e.to_string()),
        Codec::Cbor => ciborium::into_writer(v, w).map_err(|e| e.to_string()),
        Codec::JsonValue => {
            let val = serde_json::to_value(v).map_err(|e| e.to_string())?;
            let s = serde_json::to_vec(&val).map_err(|e| e.to_string())?;
            w.write_all(&s).map_err(|e| e.to_string())
        }
    }
}
/// Height is no concern of the codecs: their nesting limits are lifted.
pub fn decode_from<V: DeserializeOwned>(c: Codec, r: &mut dyn Read) -> Result<V, String> {
    match c {
        Codec::Json | Codec::JsonValue => {
            let mut d = serde_json::Deserializer::from_reader(r);
            d.disable_recursion_limit();
            let v = if let Codec::Json = c {
                V::deserialize(&mut d)
            } else {
                serde_json::Value::deserialize(&mut d).and_then(serde_json::from_value)
            };
            let v = v.map_err(|e| e.to_string())?;
            d.end().map_err(|e| e.to_string())?;
            Ok(v)
        }
        Codec::Bincode => bincode::deserialize_from(r).map_err(|e| e.to_string()),
        Codec::Cbor => ciborium::de::from_reader_with_recursion_limit(r, 10_000).map_err(|e| e.to_string()),
    }
}
pub fn decode<V: DeserializeOwned>(c: Codec, mut data: &[u8]) -> Result<V, String> {
    decode_from(c, &mut data)
}
/// With the codecs' own nesting limits, for bytes nobody vouches for.
pub fn decode_damaged<V: DeserializeOwned>(c: Codec, data: &[u8]) -> Result<V, String> {
    match c {
        Codec::Json => serde_json::from_slice(data).map_err(|e| e.to_string()),
        Codec::JsonValue => {
            let v: serde_json::Value = serde_json::from_slice(data).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        _ => decode(c, data),
    }
}
