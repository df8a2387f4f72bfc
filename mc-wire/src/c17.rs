//! C17: the PROXY protocol v2 header parser, against an independent reference.
use crate::server::proxy::{Addresses, Header, Protocol, parse_header};
use std::sync::Arc;
use mc_engine::{Check, Outcome};
use std::future::Future;
use std::io;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::pin::Pin;
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, ReadBuf};

const SIG: [u8; 12] = [13, 10, 13, 10, 0, 13, 10, 81, 85, 73, 84, 10];

/// Delivers bytes under the explorer's control.
struct Reader<'a> {
    data: &'a [u8],
    pos: usize,
    /// Boundaries where a read stops short.
    cuts: &'a [usize],
    /// Report Pending once before every read.
    pend: bool,
    pended: bool,
}
impl AsyncRead for Reader<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.pend && !self.pended {
            self.pended = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.pended = false;
        let next = self.cuts.iter().copied().find(|c| *c > self.pos).unwrap_or(usize::MAX);
        let end = (self.pos + buf.remaining()).min(self.data.len()).min(next);
        let pos = self.pos;
        buf.put_slice(&self.data[pos..end]);
        self.pos = end;
        Poll::Ready(Ok(()))
    }
}
struct Nop;
impl Wake for Nop {
    fn wake(self: std::sync::Arc<Self>) {}
}

fn parse(data: &[u8], tls: bool, cuts: &[usize], pend: bool) -> (Result<Option<Header>, io::ErrorKind>, usize) {
    let mut r = Reader { data, pos: 0, cuts, pend, pended: false };
    let res = {
        let mut f = std::pin::pin!(parse_header(&mut r, tls));
        let w = Waker::from(std::sync::Arc::new(Nop));
        let mut cx = Context::from_waker(&w);
        loop {
            if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                break x;
            }
        }
    };
    (res.map_err(|e| e.kind()), r.pos)
}

#[derive(Debug, Clone, PartialEq)]
enum Want {
    /// A health check: no header, exactly 16 bytes consumed.
    Local,
    Header(Header, usize),
    Refuse,
    /// Must be refused or treated as "no header": anything but a header.
    NoHeader,
    /// The statement does not say (e.g. a duplicated field); must not panic.
    Any,
}

/// The specification, written from the protocol text.
fn reference(d: &[u8], tls: bool) -> Want {
    if d.len() < 16 || d[..12] != SIG {
        return Want::Refuse;
    }
    if d[12] >> 4 != 2 {
        return Want::Refuse;
    }
    let len = ((d[14] as usize) << 8) | d[15] as usize;
    match d[12] & 15 {
        0 => return if len == 0 && d[13] == 0 { Want::Local } else { Want::NoHeader },
        1 => {}
        _ => return Want::Refuse,
    }
    let (fam, proto) = (d[13] >> 4, d[13] & 15);
    if fam > 3 || proto > 2 {
        return Want::Refuse;
    }
    if fam == 0 || proto == 0 {
        return Want::NoHeader;
    }
    let alen = [0, 12, 36, 216][fam as usize];
    if len < alen {
        return Want::Refuse;
    }
    if len - alen > 256 {
        return Want::Any;
    }
    if d.len() < 16 + len {
        return Want::Refuse;
    }
    let a = &d[16..16 + alen];
    let port = |i: usize| a[i] as u16 * 256 + a[i + 1] as u16;
    let addresses = match fam {
        1 => Addresses::IPv4 {
            source_address: Ipv4Addr::from([a[0], a[1], a[2], a[3]]),
            destination_address: Ipv4Addr::from([a[4], a[5], a[6], a[7]]),
            source_port: port(8),
            destination_port: port(10),
        },
        2 => Addresses::IPv6 {
            source_address: Ipv6Addr::from(<[u8; 16]>::try_from(&a[..16]).unwrap()),
            destination_address: Ipv6Addr::from(<[u8; 16]>::try_from(&a[16..32]).unwrap()),
            source_port: port(32),
            destination_port: port(34),
        },
        _ => Addresses::Unix { source: a[..108].try_into().unwrap(), destination: a[108..].try_into().unwrap() },
    };
    let tlvs = &d[16 + alen..16 + len];
    let (mut ssl, mut auth, mut crcs) = (0, vec![], 0);
    let mut i = 0;
    while i < tlvs.len() {
        if tlvs.len() - i < 3 {
            return Want::Refuse;
        }
        let l = tlvs[i + 1] as usize * 256 + tlvs[i + 2] as usize;
        if tlvs.len() - i - 3 < l {
            return Want::Refuse;
        }
        let v = &tlvs[i + 3..i + 3 + l];
        match tlvs[i] {
            0x02 => match std::str::from_utf8(v) {
                Ok(s) if !s.is_empty() => auth.push(s.to_string()),
                _ => return Want::Refuse,
            },
            0x03 => {
                crcs += 1;
                if l != 4 {
                    return Want::Refuse;
                }
                let mut copy = d[..16 + len].to_vec();
                let at = 16 + alen + i + 3;
                copy[at..at + 4].fill(0);
                if crcs == 1 && crc32c::crc32c(&copy).to_be_bytes() != v {
                    return Want::Refuse;
                }
            }
            0x20 => {
                if l < 5 || v[1..5] != [0; 4] {
                    return Want::Refuse;
                }
                ssl += 1;
            }
            _ => {}
        }
        i += 3 + l;
    }
    if tls != (ssl > 0) || tls != !auth.is_empty() {
        return Want::Refuse;
    }
    if ssl > 1 || auth.len() > 1 || crcs > 1 {
        return Want::Any;
    }
    Want::Header(
        Header {
            protocol: if proto == 1 { Protocol::Stream } else { Protocol::Datagram },
            addresses,
            tls_sni: auth.pop(),
        },
        16 + len,
    )
}

fn judge(c: &Check, d: &[u8], tls: bool, cuts: &[usize], pend: bool) -> Outcome {
    c.transition();
    let want = reference(d, tls);
    let (got, used) = parse(d, tls, cuts, pend);
    c.outcome(&format!("{:?}", match &got { Ok(None) => "local".to_string(), Ok(Some(h)) => format!("{:?}", h.tls_sni), Err(e) => format!("{e:?}") }));
    c.state(&(d.len(), mc_engine::hash64(d), tls));
    match (&want, &got) {
        (Want::Any, _) => Ok(()),
        (Want::Local, Ok(None)) if used == 16 => Ok(()),
        (Want::Header(h, n), Ok(Some(g))) if h == g && *n == used => Ok(()),
        (Want::Refuse, Err(_)) => Ok(()),
        (Want::NoHeader, Err(_)) | (Want::NoHeader, Ok(None)) => Ok(()),
        _ => Err(format!("header {:02x?} (tls={tls}): expected {want:?}, got {got:?} after {used} bytes", &d[..d.len().min(64)])),
    }
}

fn tlv(t: u8, v: &[u8]) -> Vec<u8> {
    let mut o = vec![t, (v.len() >> 8) as u8, v.len() as u8];
    o.extend(v);
    o
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Raw(&'static str, Vec<u8>),
    Crc,
    BadCrc,
}

fn addr(fam: u8) -> Vec<u8> {
    let n = [0, 12, 36, 216][fam as usize];
    (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(9)).collect()
}

fn message(b13: u8, b14: u8, fam: u8, ts: &[T], tail: &[u8]) -> Vec<u8> {
    let mut area = vec![];
    let mut crc_at = None;
    for t in ts {
        match t {
            T::Raw(_, b) => area.extend(b),
            T::Crc | T::BadCrc => {
                crc_at = Some((area.len() + 3, *t == T::BadCrc));
                area.extend(tlv(3, &[0; 4]));
            }
        }
    }
    let a = addr(fam);
    let len = a.len() + area.len();
    let mut d = SIG.to_vec();
    d.extend([b13, b14, (len >> 8) as u8, len as u8]);
    d.extend(&a);
    let base = d.len();
    d.extend(&area);
    if let Some((at, bad)) = crc_at {
        let mut v = crc32c::crc32c(&d);
        if bad {
            v ^= 0x0100;
        }
        d[base + at..base + at + 4].copy_from_slice(&v.to_be_bytes());
    }
    d.extend(tail);
    d
}

pub fn run(c: &Arc<Check>) {
    c.assume("the crc32c crate is trusted; bytes arrive through a reader whose chunking the explorer decides");
    let tail = b"\x10\x0c\x00\x04MQTT";

    // 1. every pair of version/command and family/protocol bytes, around every length boundary
    let lens = [0usize, 1, 11, 12, 13, 15, 35, 36, 37, 215, 216, 217, 216 + 256, 216 + 257, 12 + 256, 12 + 257, 36 + 256, 36 + 257, 0xffff];
    c.explore_product("fixed-part", "256 version/command bytes x 256 family/protocol bytes x 19 lengths x TLS", 65536 * lens.len() * 2, |i| format!("{i}"), |i| {
        let tls = i & 1 == 1;
        let b13 = (i >> 1) as u8;
        let b14 = (i >> 9) as u8;
        let len = lens[i >> 17];
        if !c.thorough && b13 >> 4 != 2 && b13 & 0x0e != 0 {
            return Ok(());
        }
        let mut d = SIG.to_vec();
        d.extend([b13, b14, (len >> 8) as u8, len as u8]);
        // TLV filler: one unknown TLV covering the rest when it fits
        let mut body = vec![0x11u8; len.min(600)];
        let fam = b14 >> 4;
        if (1..=3).contains(&fam) {
            let al = [0, 12, 36, 216][fam as usize];
            if len >= al + 3 && len - al <= 300 {
                let rest = len - al - 3;
                body[al] = 0x30;
                body[al + 1] = (rest >> 8) as u8;
                body[al + 2] = rest as u8;
            }
        }
        d.extend(&body);
        d.extend(tail);
        judge(c, &d, tls, &[], false)
    });

    // 2. signature
    c.explore_product("signature", "12 positions x 256 values x 2 commands", 12 * 256 * 2, |i| format!("{i}"), |i| {
        let mut d = message(0x20 + (i & 1) as u8, if i & 1 == 1 { 0x11 } else { 0 }, (i & 1) as u8, &[], tail);
        d[i / 2 / 256] = (i / 2 % 256) as u8;
        judge(c, &d, false, &[], false)
    });

    // 3. every sequence of TLVs
    let raw = |n: &'static str, b: Vec<u8>| T::Raw(n, b);
    let mut alpha = vec![
        raw("authority", tlv(2, b"broker.example")),
        raw("ssl-ok", tlv(0x20, &[1, 0, 0, 0, 0])),
        T::Crc,
        T::BadCrc,
        raw("noop", tlv(4, &[])),
        raw("unknown", tlv(0xEE, &[2, 0, 1])),
        raw("ssl-subtlv", tlv(0x20, &[7, 0, 0, 0, 0, 0x21, 0, 7, b'T', b'L', b'S', b'v', b'1', b'.', b'3'])),
        raw("authority-utf8", tlv(2, "é".as_bytes())),
        raw("authority-empty", tlv(2, &[])),
        raw("authority-bad", tlv(2, &[0xff, 0xfe])),
        raw("ssl-verify-0", tlv(0x20, &[1, 1, 0, 0, 0])),
        raw("ssl-verify-1", tlv(0x20, &[1, 0, 1, 0, 0])),
        raw("ssl-verify-2", tlv(0x20, &[1, 0, 0, 1, 0])),
        raw("ssl-verify-3", tlv(0x20, &[1, 0, 0, 0, 1])),
        raw("ssl-short", tlv(0x20, &[1, 0, 0, 0])),
        raw("crc-short", tlv(3, &[0, 0, 0])),
        raw("crc-long", tlv(3, &[0, 0, 0, 0, 0])),
        raw("overrun", vec![5, 0, 9, 1]),
        raw("stub1", vec![4]),
        raw("stub2", vec![4, 0]),
        raw("alpn", tlv(1, b"mqtt")),
    ];
    let small: Vec<T> = alpha.drain(..).collect();
    for fam in 1..=3u8 {
        for proto in 1..=2u8 {
            let deep = fam == 1 && proto == 1;
            let depth = if deep { c.pick(5, 6) } else { c.pick(3, 4) };
            c.explore_seqs(&format!("tlv-sequences-f{fam}p{proto}"), &small, depth, |t| match t { T::Raw(n, _) => n.to_string(), t => format!("{t:?}") }, |_, _| true, |ts| {
                let d = message(0x21, fam << 4 | proto, fam, ts, tail);
                judge(c, &d, true, &[], false)?;
                judge(c, &d, false, &[], false)
            });
        }
    }
    // no TLVs at all, and TLV areas of every size up to the limit
    c.explore_product("tlv-area-sizes", "family x protocol x area size 0..=300 x TLS", 3 * 2 * 301 * 2, |i| format!("{i}"), |i| {
        let fam = (i % 3 + 1) as u8;
        let proto = (i / 3 % 2 + 1) as u8;
        let tls = i / 6 % 2 == 1;
        let size = i / 12;
        let mut ts = vec![];
        let mut left = size;
        if tls && left > 25 {
            let a = tlv(0x20, &[1, 0, 0, 0, 0]);
            let b = tlv(2, b"host");
            left -= a.len() + b.len();
            ts.push(T::Raw("", a));
            ts.push(T::Raw("", b));
        }
        if left >= 3 {
            ts.push(T::Raw("", tlv(0xEA, &vec![3u8; left - 3])));
        } else if left > 0 {
            ts.push(T::Raw("", vec![4; left]));
        }
        let d = message(0x21, fam << 4 | proto, fam, &ts, tail);
        judge(c, &d, tls, &[], false)
    });

    // 4. addresses: every byte position takes every value
    c.explore_product("address-bytes", "family x address byte x 256 values", (12 + 36 + 216) * 256, |i| format!("{i}"), |i| {
        let v = (i % 256) as u8;
        let mut p = i / 256;
        let mut fam = 1u8;
        for n in [12, 36, 216] {
            if p < n {
                break;
            }
            p -= n;
            fam += 1;
        }
        let mut d = message(0x21, fam << 4 | 1, fam, &[], tail);
        d[16 + p] = v;
        judge(c, &d, false, &[], false)
    });

    // 5. checksummed header: every single-bit error anywhere, both positions of the CRC field
    let ssl = T::Raw("", tlv(0x20, &[1, 0, 0, 0, 0]));
    let au = T::Raw("", tlv(2, b"hostname"));
    for (k, ts) in [vec![T::Crc, au.clone(), ssl.clone()], vec![au.clone(), T::Crc, ssl.clone()], vec![ssl, au, T::Crc]].into_iter().enumerate() {
        for fam in 1..=3u8 {
            let good = message(0x21, fam << 4 | 1, fam, &ts, b"");
            let n = good.len() * 8;
            c.explore_product(&format!("crc-bit-errors-{k}-f{fam}"), "every single-bit error of a checksummed header", n, |i| format!("{i}"), |i| {
                let mut d = good.clone();
                d[i / 8] ^= 1 << (i % 8);
                d.extend(tail);
                judge(c, &d, true, &[], false)?;
                // the checksum field itself cannot have been removed by one bit
                // error without the reference noticing; a header that still
                // carries it must be refused
                Ok(())
            });
            if c.thorough {
                c.explore_product(&format!("crc-byte-errors-{k}-f{fam}"), "every single-byte error of a checksummed header", good.len() * 256, |i| format!("{i}"), |i| {
                    let mut d = good.clone();
                    d[i / 256] = (i % 256) as u8;
                    d.extend(tail);
                    judge(c, &d, true, &[], false)
                });
            }
        }
    }

    // 6. delivery: every end-of-stream point, every pair of read boundaries, pending before every read
    let bodies: Vec<(bool, Vec<u8>)> = vec![
        (false, message(0x20, 0, 0, &[], tail)),
        (false, message(0x21, 0x11, 1, &[T::Crc, T::Raw("", tlv(4, &[]))], tail)),
        (true, message(0x21, 0x11, 1, &[T::Raw("", tlv(0x20, &[1, 0, 0, 0, 0])), T::Raw("", tlv(2, b"h")), T::Crc], tail)),
        (false, message(0x21, 0x22, 2, &[], tail)),
        (false, message(0x21, 0x31, 3, &[T::Raw("", tlv(4, &[1, 2]))], tail)),
    ];
    for (k, (tls, d)) in bodies.iter().enumerate() {
        c.explore_product(&format!("end-of-stream-{k}"), "stream ends after every byte", d.len(), |i| format!("{i}"), |i| judge(c, &d[..i], *tls, &[], i % 2 == 1));
        let n = d.len();
        c.explore_product(&format!("read-boundaries-{k}"), "every pair of read boundaries, with and without pending", n * n * 2, |i| format!("{i}"), |i| {
            let a = i % n;
            let b = i / n % n;
            if b < a {
                return Ok(());
            }
            judge(c, d, *tls, &[a, b], i / n / n == 1)
        });
        c.explore_product(&format!("byte-at-a-time-{k}"), "one byte per read, with and without pending", 2, |i| format!("{i}"), |i| {
            let cuts: Vec<usize> = (1..n).collect();
            judge(c, d, *tls, &cuts, i == 1)
        });
    }
}
