use std::fmt;
use std::hash::{Hash, Hasher};
use std::io;
use std::ops::{Add, AddAssign, Deref, Sub, SubAssign};
use std::sync::Arc;

use thiserror::Error as ThisError;
use tokio::io::{AsyncRead, AsyncReadExt};

pub use std::io::ErrorKind as IoErrorKind;

#[derive(ThisError, Debug, Clone, PartialEq, Eq)]
pub enum Error {
    #[error("invalid remaining length")]
    InvalidRemainingLength,
    #[error("empty subscription")]
    EmptySubscription,
    #[error("packet identifier is 0")]
    ZeroPid,
    #[error("invalid qos: `{0}`")]
    InvalidQos(u8),
    #[error("invalid connect flags: `{0}`")]
    InvalidConnectFlags(u8),
    #[error("invalid connack flags: `{0}`")]
    InvalidConnackFlags(u8),
    #[error("invalid connect return code: `{0}`")]
    InvalidConnectReturnCode(u8),
    #[error("invalid protocol: `{0}`, `{1}`")]
    InvalidProtocol(String, u8),
    #[error("unexpected protocol: `{0}`")]
    UnexpectedProtocol(Protocol),
    #[error("invalid fixed header")]
    InvalidHeader,
    #[error("invalid variable byte integer")]
    InvalidVarByteInt,
    #[error("invalid topic name: `{0}`")]
    InvalidTopicName(String),
    #[error("invalid topic filter: `{0}`")]
    InvalidTopicFilter(String),
    #[error("string not utf8")]
    InvalidString,
    #[error("io error: {0:?}")]
    IoError(IoErrorKind),
}

impl Error {
    pub fn is_eof(&self) -> bool {
        *self == Error::IoError(IoErrorKind::UnexpectedEof)
    }
}
impl From<io::Error> for Error {
    fn from(err: io::Error) -> Error {
        Error::IoError(err.kind())
    }
}
impl From<Error> for io::Error {
    fn from(err: Error) -> io::Error {
        match err {
            Error::IoError(kind) => kind.into(),
            _ => io::ErrorKind::InvalidData.into(),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Protocol {
    V310 = 3,
    V311 = 4,
    V500 = 5,
}

impl Protocol {
    pub fn new(name: &[u8], level: u8) -> Result<Protocol, Error> {
        match (name, level) {
            (b"MQIsdp", 3) => Ok(Protocol::V310),
            (b"MQTT", 4) => Ok(Protocol::V311),
            (b"MQTT", 5) => Ok(Protocol::V500),
            _ => {
                let name = std::str::from_utf8(name).map_err(|_| Error::InvalidString)?;
                Err(Error::InvalidProtocol(name.into(), level))
            }
        }
    }
    pub fn to_pair(self) -> (&'static [u8], u8) {
        match self {
            Protocol::V310 => (b"MQIsdp", 3),
            Protocol::V311 => (b"MQTT", 4),
            Protocol::V500 => (b"MQTT", 5),
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let name = read_bytes(reader).await?;
        let level = read_u8(reader).await?;
        Protocol::new(&name, level)
    }
    pub fn decode(data: &[u8]) -> Result<Self, Error> {
        crate::now_or_panic(Self::decode_async(&mut &data[..]))
    }
    pub fn encode_to(self, out: &mut Vec<u8>) {
        let (name, level) = self.to_pair();
        put_bytes(out, name);
        out.push(level);
    }
}
impl fmt::Display for Protocol {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Protocol::V310 => "v3.1",
            Protocol::V311 => "v3.1.1",
            Protocol::V500 => "v5.0",
        })
    }
}

/// Packet identifier
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pid(u16);
impl Pid {
    pub fn value(self) -> u16 {
        self.0
    }
}
impl Default for Pid {
    fn default() -> Pid {
        Pid(1)
    }
}
impl TryFrom<u16> for Pid {
    type Error = Error;
    fn try_from(value: u16) -> Result<Self, Error> {
        if value == 0 {
            Err(Error::ZeroPid)
        } else {
            Ok(Pid(value))
        }
    }
}
impl From<Pid> for u16 {
    fn from(p: Pid) -> u16 {
        p.0
    }
}
impl Add<u16> for Pid {
    type Output = Pid;
    fn add(self, u: u16) -> Pid {
        Pid(match self.0.overflowing_add(u) {
            (n, false) => n,
            (n, true) => n + 1,
        })
    }
}
impl AddAssign<u16> for Pid {
    fn add_assign(&mut self, other: u16) {
        *self = *self + other;
    }
}
impl Sub<u16> for Pid {
    type Output = Pid;
    fn sub(self, u: u16) -> Pid {
        Pid(match self.0.overflowing_sub(u) {
            (0, _) => u16::MAX,
            (n, false) => n,
            (n, true) => n - 1,
        })
    }
}
impl SubAssign<u16> for Pid {
    fn sub_assign(&mut self, other: u16) {
        *self = *self - other;
    }
}
impl fmt::Display for Pid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum QoS {
    Level0 = 0,
    Level1 = 1,
    Level2 = 2,
}
impl QoS {
    pub fn from_u8(byte: u8) -> Result<QoS, Error> {
        match byte {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            2 => Ok(QoS::Level2),
            n => Err(Error::InvalidQos(n)),
        }
    }
}
impl TryFrom<u8> for QoS {
    type Error = Error;
    fn try_from(v: u8) -> Result<Self, Error> {
        QoS::from_u8(v)
    }
}
impl From<QoS> for u8 {
    fn from(q: QoS) -> u8 {
        q as u8
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum QosPid {
    Level0,
    Level1(Pid),
    Level2(Pid),
}
impl QosPid {
    pub fn new(qos: QoS, pid: Pid) -> QosPid {
        match qos {
            QoS::Level0 => QosPid::Level0,
            QoS::Level1 => QosPid::Level1(pid),
            QoS::Level2 => QosPid::Level2(pid),
        }
    }
    pub fn pid(self) -> Option<Pid> {
        match self {
            QosPid::Level0 => None,
            QosPid::Level1(p) | QosPid::Level2(p) => Some(p),
        }
    }
    pub fn qos(self) -> QoS {
        match self {
            QosPid::Level0 => QoS::Level0,
            QosPid::Level1(_) => QoS::Level1,
            QosPid::Level2(_) => QoS::Level2,
        }
    }
}

macro_rules! str_common {
    ($name:ident) => {
        impl Deref for $name {
            type Target = str;
            fn deref(&self) -> &str {
                &self.inner
            }
        }
        impl AsRef<str> for $name {
            fn as_ref(&self) -> &str {
                &self.inner
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(&self.inner)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{:?}", &*self.inner)
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.inner == o.inner
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.inner.cmp(&o.inner)
            }
        }
        impl Hash for $name {
            fn hash<H: Hasher>(&self, state: &mut H) {
                self.inner.hash(state)
            }
        }
        impl TryFrom<String> for $name {
            type Error = Error;
            fn try_from(v: String) -> Result<Self, Error> {
                Self::build(&v)
            }
        }
        impl TryFrom<&str> for $name {
            type Error = Error;
            fn try_from(v: &str) -> Result<Self, Error> {
                Self::build(v)
            }
        }
        impl TryFrom<Arc<str>> for $name {
            type Error = Error;
            fn try_from(v: Arc<str>) -> Result<Self, Error> {
                Self::build(&v)
            }
        }
    };
}

#[derive(Clone)]
pub struct TopicName {
    inner: Arc<str>,
}
str_common!(TopicName);
impl TopicName {
    fn build(v: &str) -> Result<Self, Error> {
        if TopicName::is_invalid(v) {
            Err(Error::InvalidTopicName(v.to_owned()))
        } else {
            Ok(TopicName { inner: Arc::from(v) })
        }
    }
    pub fn is_invalid(v: &str) -> bool {
        v.len() > u16::MAX as usize || v.contains(['\0', '#', '+'])
    }
    pub fn is_shared(&self) -> bool {
        self.inner.starts_with(crate::SHARED_PREFIX)
    }
    pub fn is_sys(&self) -> bool {
        self.inner.starts_with(crate::SYS_PREFIX)
    }
}

#[derive(Clone)]
pub struct TopicFilter {
    inner: Arc<str>,
    // byte index where the filter part of `$share/<group>/<filter>` starts, or 0
    shared_filter_sep: u16,
}
str_common!(TopicFilter);
impl TopicFilter {
    fn build(v: &str) -> Result<Self, Error> {
        let (invalid, sep) = TopicFilter::is_invalid(v);
        if invalid {
            Err(Error::InvalidTopicFilter(v.to_owned()))
        } else {
            Ok(TopicFilter { inner: Arc::from(v), shared_filter_sep: sep })
        }
    }
    /// (invalid, index of the '/' between group and filter)
    pub fn is_invalid(v: &str) -> (bool, u16) {
        if v.is_empty() || v.len() > u16::MAX as usize || v.contains('\0') {
            return (true, 0);
        }
        let mut sep = 0u16;
        let mut filter = v;
        if let Some(rest) = v.strip_prefix(crate::SHARED_PREFIX) {
            let Some((group, f)) = rest.split_once('/') else {
                return (true, 0);
            };
            if group.is_empty() || group.contains(['+', '#']) || f.is_empty() {
                return (true, 0);
            }
            sep = (crate::SHARED_PREFIX.len() + group.len()) as u16;
            filter = f;
        } else if v == "$share" {
            return (true, 0);
        }
        let levels: Vec<&str> = filter.split('/').collect();
        for (i, level) in levels.iter().enumerate() {
            if level.contains('#') && (*level != "#" || i + 1 != levels.len()) {
                return (true, 0);
            }
            if level.contains('+') && *level != "+" {
                return (true, 0);
            }
        }
        (false, sep)
    }
    pub fn is_shared(&self) -> bool {
        self.shared_filter_sep > 0
    }
    pub fn is_sys(&self) -> bool {
        self.inner.starts_with(crate::SYS_PREFIX)
    }
    pub fn shared_group_name(&self) -> Option<&str> {
        self.shared_info().map(|(g, _)| g)
    }
    pub fn shared_filter(&self) -> Option<&str> {
        self.shared_info().map(|(_, f)| f)
    }
    pub fn shared_info(&self) -> Option<(&str, &str)> {
        if self.shared_filter_sep == 0 {
            return None;
        }
        let sep = self.shared_filter_sep as usize;
        Some((&self.inner[crate::SHARED_PREFIX.len()..sep], &self.inner[sep + 1..]))
    }
}

/// Encoded packet bytes
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum VarBytes {
    Dynamic(Vec<u8>),
    Fixed2([u8; 2]),
    Fixed4([u8; 4]),
}
impl AsRef<[u8]> for VarBytes {
    fn as_ref(&self) -> &[u8] {
        match self {
            VarBytes::Dynamic(v) => v,
            VarBytes::Fixed2(v) => v,
            VarBytes::Fixed4(v) => v,
        }
    }
}
impl VarBytes {
    pub fn as_slice(&self) -> &[u8] {
        self.as_ref()
    }
}
impl Deref for VarBytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        self.as_ref()
    }
}

pub trait Encodable {
    fn encode<W: io::Write>(&self, writer: &mut W) -> io::Result<()>;
    fn encode_len(&self) -> usize;
}

/// Whole packet length (fixed header included) for a given remaining length
pub fn total_len(remaining_len: usize) -> Result<usize, Error> {
    let header = match remaining_len {
        0..=127 => 2,
        128..=16_383 => 3,
        16_384..=2_097_151 => 4,
        2_097_152..=268_435_455 => 5,
        _ => return Err(Error::InvalidVarByteInt),
    };
    Ok(header + remaining_len)
}
pub fn var_int_len(value: usize) -> Result<usize, Error> {
    Ok(total_len(value)? - value - 1)
}
pub fn header_len(remaining_len: usize) -> usize {
    total_len(remaining_len).map(|n| n - remaining_len).unwrap_or(5)
}

pub fn decode_raw_header(data: &[u8]) -> Result<Option<(u8, u32, usize)>, Error> {
    match crate::now_or_panic(decode_raw_header_async(&mut &data[..])) {
        Ok((a, b, c)) => Ok(Some((a, b, c))),
        Err(e) if e.is_eof() => Ok(None),
        Err(e) => Err(e),
    }
}
/// Return (control byte, remaining length, total packet length)
pub async fn decode_raw_header_async<T: AsyncRead + Unpin>(
    reader: &mut T,
) -> Result<(u8, u32, usize), Error> {
    let control = read_u8(reader).await?;
    let (len, _) = decode_var_int_async(reader).await?;
    Ok((control, len, total_len(len as usize)?))
}
pub async fn decode_var_int_async<T: AsyncRead + Unpin>(
    reader: &mut T,
) -> Result<(u32, usize), Error> {
    let mut value = 0u32;
    for i in 0..4 {
        let byte = read_u8(reader).await?;
        value |= ((byte & 0x7f) as u32) << (7 * i);
        if byte & 0x80 == 0 {
            return Ok((value, i + 1));
        }
    }
    Err(Error::InvalidVarByteInt)
}
pub(crate) fn put_var_int(out: &mut Vec<u8>, mut value: usize) {
    loop {
        let mut b = (value & 0x7f) as u8;
        value >>= 7;
        if value > 0 {
            b |= 0x80;
        }
        out.push(b);
        if value == 0 {
            break;
        }
    }
}
pub(crate) fn put_u16(out: &mut Vec<u8>, v: u16) {
    out.extend_from_slice(&v.to_be_bytes());
}
pub(crate) fn put_bytes(out: &mut Vec<u8>, v: &[u8]) {
    put_u16(out, v.len() as u16);
    out.extend_from_slice(v);
}
pub(crate) async fn read_u8<T: AsyncRead + Unpin>(r: &mut T) -> Result<u8, Error> {
    let mut b = [0u8; 1];
    r.read_exact(&mut b).await?;
    Ok(b[0])
}
pub(crate) async fn read_u16<T: AsyncRead + Unpin>(r: &mut T) -> Result<u16, Error> {
    let mut b = [0u8; 2];
    r.read_exact(&mut b).await?;
    Ok(u16::from_be_bytes(b))
}
pub(crate) async fn read_exact_vec<T: AsyncRead + Unpin>(r: &mut T, n: usize) -> Result<Vec<u8>, Error> {
    let mut v = vec![0u8; n];
    r.read_exact(&mut v).await?;
    Ok(v)
}
pub(crate) async fn read_bytes<T: AsyncRead + Unpin>(r: &mut T) -> Result<Vec<u8>, Error> {
    let n = read_u16(r).await?;
    read_exact_vec(r, n as usize).await
}
pub(crate) async fn read_string<T: AsyncRead + Unpin>(r: &mut T) -> Result<String, Error> {
    let v = read_bytes(r).await?;
    let s = String::from_utf8(v).map_err(|_| Error::InvalidString)?;
    if s.contains('\0') {
        return Err(Error::InvalidString);
    }
    Ok(s)
}

/// Sync cursor over a packet body.  Running off the end is a malformed packet.
pub(crate) struct Cur<'a>(pub &'a [u8]);
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Error> {
        if self.0.len() < n {
            return Err(Error::InvalidRemainingLength);
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, Error> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, Error> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Result<u32, Error> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn pid(&mut self) -> Result<Pid, Error> {
        Pid::try_from(self.u16()?)
    }
    pub fn bytes(&mut self) -> Result<&'a [u8], Error> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    pub fn string(&mut self) -> Result<&'a str, Error> {
        let s = std::str::from_utf8(self.bytes()?).map_err(|_| Error::InvalidString)?;
        if s.contains('\0') {
            return Err(Error::InvalidString);
        }
        Ok(s)
    }
    pub fn var_int(&mut self) -> Result<u32, Error> {
        let mut value = 0u32;
        for i in 0..4 {
            let byte = self.u8()?;
            value |= ((byte & 0x7f) as u32) << (7 * i);
            if byte & 0x80 == 0 {
                return Ok(value);
            }
        }
        Err(Error::InvalidVarByteInt)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
