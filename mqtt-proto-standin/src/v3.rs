//! MQTT 3.1 / 3.1.1 packets
use std::hash::{Hash, Hasher};
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt};

use crate::common::*;
use crate::{GenericPollPacket, GenericPollPacketState, PollHeader};

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}

impl Header {
    pub fn new(typ: PacketType, dup: bool, qos: QoS, retain: bool, remaining_len: u32, total_len: u32) -> Self {
        Header { typ, dup, qos, retain, remaining_len, total_len }
    }
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, Error> {
        use PacketType::*;
        const FLAGS_ZERO: u8 = 0;
        const FLAGS_TWO: u8 = 0b10;
        let (typ, want) = match hd >> 4 {
            1 => (Connect, Some(FLAGS_ZERO)),
            2 => (Connack, Some(FLAGS_ZERO)),
            3 => (Publish, None),
            4 => (Puback, Some(FLAGS_ZERO)),
            5 => (Pubrec, Some(FLAGS_ZERO)),
            6 => (Pubrel, Some(FLAGS_TWO)),
            7 => (Pubcomp, Some(FLAGS_ZERO)),
            8 => (Subscribe, Some(FLAGS_TWO)),
            9 => (Suback, Some(FLAGS_ZERO)),
            10 => (Unsubscribe, Some(FLAGS_TWO)),
            11 => (Unsuback, Some(FLAGS_ZERO)),
            12 => (Pingreq, Some(FLAGS_ZERO)),
            13 => (Pingresp, Some(FLAGS_ZERO)),
            14 => (Disconnect, Some(FLAGS_ZERO)),
            _ => return Err(Error::InvalidHeader),
        };
        if let Some(want) = want {
            if hd & 0xf != want {
                return Err(Error::InvalidHeader);
            }
            return Ok(Header { typ, dup: false, qos: QoS::Level0, retain: false, remaining_len, total_len });
        }
        let qos = QoS::from_u8((hd >> 1) & 0b11)?;
        Ok(Header { typ, dup: hd & 8 != 0, qos, retain: hd & 1 != 0, remaining_len, total_len })
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Header, Error> {
        let (hd, len, total) = decode_raw_header_async(reader).await?;
        Header::new_with(hd, len, total as u32)
    }
}

impl PollHeader for Header {
    type Error = Error;
    type Packet = Packet;
    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, Error> {
        Header::new_with(hd, remaining_len, total_len)
    }
    fn build_empty_packet(&self) -> Option<Packet> {
        match self.typ {
            PacketType::Pingreq => Some(Packet::Pingreq),
            PacketType::Pingresp => Some(Packet::Pingresp),
            PacketType::Disconnect => Some(Packet::Disconnect),
            _ => None,
        }
    }
    fn block_decode(self, body: &[u8]) -> Result<Packet, Error> {
        decode_body(self, body)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
}

fn decode_body(header: Header, body: &[u8]) -> Result<Packet, Error> {
    let mut c = Cur(body);
    let packet = match header.typ {
        PacketType::Connect => {
            let mut r = body;
            let pkt = crate::now_or_panic(Connect::decode_stream(&mut r)).map_err(|e| {
                if e.is_eof() {
                    Error::InvalidRemainingLength
                } else {
                    e
                }
            })?;
            c = Cur(r);
            Packet::Connect(pkt)
        }
        PacketType::Connack => {
            let flags = c.u8()?;
            if flags > 1 {
                return Err(Error::InvalidConnackFlags(flags));
            }
            Packet::Connack(Connack::new(flags == 1, ConnectReturnCode::from_u8(c.u8()?)?))
        }
        PacketType::Publish => {
            let topic_name = TopicName::try_from(c.string()?)?;
            let qos_pid = match header.qos {
                QoS::Level0 => QosPid::Level0,
                QoS::Level1 => QosPid::Level1(c.pid()?),
                QoS::Level2 => QosPid::Level2(c.pid()?),
            };
            let n = c.0.len();
            let payload = Bytes::copy_from_slice(c.take(n)?);
            Packet::Publish(Publish { dup: header.dup, retain: header.retain, qos_pid, topic_name, payload })
        }
        PacketType::Puback => Packet::Puback(c.pid()?),
        PacketType::Pubrec => Packet::Pubrec(c.pid()?),
        PacketType::Pubrel => Packet::Pubrel(c.pid()?),
        PacketType::Pubcomp => Packet::Pubcomp(c.pid()?),
        PacketType::Unsuback => Packet::Unsuback(c.pid()?),
        PacketType::Subscribe => {
            let pid = c.pid()?;
            let mut topics = Vec::new();
            while !c.is_empty() {
                let filter = TopicFilter::try_from(c.string()?)?;
                topics.push((filter, QoS::from_u8(c.u8()?)?));
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription);
            }
            Packet::Subscribe(Subscribe { pid, topics })
        }
        PacketType::Suback => {
            let pid = c.pid()?;
            let mut topics = Vec::new();
            while !c.is_empty() {
                topics.push(SubscribeReturnCode::from_u8(c.u8()?)?);
            }
            Packet::Suback(Suback { pid, topics })
        }
        PacketType::Unsubscribe => {
            let pid = c.pid()?;
            let mut topics = Vec::new();
            while !c.is_empty() {
                topics.push(TopicFilter::try_from(c.string()?)?);
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription);
            }
            Packet::Unsubscribe(Unsubscribe { pid, topics })
        }
        PacketType::Pingreq => Packet::Pingreq,
        PacketType::Pingresp => Packet::Pingresp,
        PacketType::Disconnect => Packet::Disconnect,
    };
    if !c.is_empty() {
        return Err(Error::InvalidRemainingLength);
    }
    Ok(packet)
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_session: bool,
    pub keep_alive: u16,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}
impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V311,
            clean_session: true,
            keep_alive,
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    pub async fn decode_stream<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let protocol = Protocol::decode_async(reader).await?;
        Self::decode_stream_with_protocol(reader, protocol).await
    }
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        protocol: Protocol,
    ) -> Result<Self, Error> {
        if protocol as u8 > 4 {
            return Err(Error::UnexpectedProtocol(protocol));
        }
        let flags = read_u8(reader).await?;
        if flags & 1 != 0 {
            return Err(Error::InvalidConnectFlags(flags));
        }
        let keep_alive = read_u16(reader).await?;
        let client_id = Arc::from(read_string(reader).await?);
        let last_will = if flags & 0b100 != 0 {
            let topic_name = TopicName::try_from(read_string(reader).await?)?;
            let message = read_bytes(reader).await?;
            let qos = QoS::from_u8((flags >> 3) & 0b11)?;
            Some(LastWill { qos, retain: flags & 0b10_0000 != 0, topic_name, message: message.into() })
        } else if flags & 0b11_1000 != 0 {
            return Err(Error::InvalidConnectFlags(flags));
        } else {
            None
        };
        let username = if flags & 0x80 != 0 { Some(Arc::from(read_string(reader).await?)) } else { None };
        let password = if flags & 0x40 != 0 { Some(Bytes::from(read_bytes(reader).await?)) } else { None };
        Ok(Connect {
            protocol,
            clean_session: flags & 0b10 != 0,
            keep_alive,
            client_id,
            last_will,
            username,
            password,
        })
    }
    fn put(&self, out: &mut Vec<u8>) {
        self.protocol.encode_to(out);
        let mut flags = 0u8;
        if self.clean_session {
            flags |= 0b10;
        }
        if self.username.is_some() {
            flags |= 0x80;
        }
        if self.password.is_some() {
            flags |= 0x40;
        }
        if let Some(w) = &self.last_will {
            flags |= 0b100 | ((w.qos as u8) << 3);
            if w.retain {
                flags |= 0b10_0000;
            }
        }
        out.push(flags);
        put_u16(out, self.keep_alive);
        put_bytes(out, self.client_id.as_bytes());
        if let Some(w) = &self.last_will {
            put_bytes(out, w.topic_name.as_bytes());
            put_bytes(out, &w.message);
        }
        if let Some(u) = &self.username {
            put_bytes(out, u.as_bytes());
        }
        if let Some(p) = &self.password {
            put_bytes(out, p);
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub message: Bytes,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, message: Bytes) -> Self {
        LastWill { qos, retain: false, topic_name, message }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub code: ConnectReturnCode,
}
impl Connack {
    pub fn new(session_present: bool, code: ConnectReturnCode) -> Connack {
        Connack { session_present, code }
    }
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum ConnectReturnCode {
    Accepted = 0,
    UnacceptableProtocolVersion = 1,
    IdentifierRejected = 2,
    ServerUnavailable = 3,
    BadUserNameOrPassword = 4,
    NotAuthorized = 5,
}
impl ConnectReturnCode {
    pub fn from_u8(v: u8) -> Result<Self, Error> {
        use ConnectReturnCode::*;
        Ok(match v {
            0 => Accepted,
            1 => UnacceptableProtocolVersion,
            2 => IdentifierRejected,
            3 => ServerUnavailable,
            4 => BadUserNameOrPassword,
            5 => NotAuthorized,
            n => return Err(Error::InvalidConnectReturnCode(n)),
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Publish {
        Publish { dup: false, retain: false, qos_pid, topic_name, payload }
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self.topic_name.as_bytes());
        if let Some(pid) = self.qos_pid.pid() {
            put_u16(out, pid.value());
        }
        out.extend_from_slice(&self.payload);
    }
}
/// The DUP flag describes the delivery attempt, not the message, so it is not hashed.
impl Hash for Publish {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.retain.hash(state);
        self.qos_pid.hash(state);
        self.topic_name.hash(state);
        self.payload.hash(state);
    }
}
impl Encodable for Publish {
    fn encode<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
        let mut v = Vec::new();
        self.put(&mut v);
        writer.write_all(&v)
    }
    fn encode_len(&self) -> usize {
        2 + self.topic_name.len() + if self.qos_pid.pid().is_some() { 2 } else { 0 } + self.payload.len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub topics: Vec<(TopicFilter, QoS)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, QoS)>) -> Self {
        Subscribe { pid, topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub topics: Vec<SubscribeReturnCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReturnCode>) -> Self {
        Suback { pid, topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe { pid, topics }
    }
}
#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum SubscribeReturnCode {
    MaxLevel0 = 0,
    MaxLevel1 = 1,
    MaxLevel2 = 2,
    Failure = 0x80,
}
impl SubscribeReturnCode {
    pub fn from_u8(v: u8) -> Result<Self, Error> {
        Ok(match v {
            0 => Self::MaxLevel0,
            1 => Self::MaxLevel1,
            2 => Self::MaxLevel2,
            0x80 => Self::Failure,
            n => return Err(Error::InvalidQos(n)),
        })
    }
}
impl From<QoS> for SubscribeReturnCode {
    fn from(q: QoS) -> Self {
        match q {
            QoS::Level0 => Self::MaxLevel0,
            QoS::Level1 => Self::MaxLevel1,
            QoS::Level2 => Self::MaxLevel2,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Pid),
    Pubrec(Pid),
    Pubrel(Pid),
    Pubcomp(Pid),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Pid),
    Pingreq,
    Pingresp,
    Disconnect,
}
macro_rules! from_pkt {
    ($($t:ident),*) => {$(
        impl From<$t> for Packet { fn from(p: $t) -> Packet { Packet::$t(p) } }
    )*};
}
from_pkt!(Connect, Connack, Publish, Subscribe, Suback, Unsubscribe);

impl Packet {
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect => PacketType::Disconnect,
        }
    }
    fn parts(&self) -> (u8, Vec<u8>) {
        let mut b = Vec::new();
        let hd = match self {
            Packet::Connect(p) => {
                p.put(&mut b);
                0x10
            }
            Packet::Connack(p) => {
                b.push(p.session_present as u8);
                b.push(p.code as u8);
                0x20
            }
            Packet::Publish(p) => {
                p.put(&mut b);
                0x30 | ((p.dup as u8) << 3) | ((p.qos_pid.qos() as u8) << 1) | p.retain as u8
            }
            Packet::Puback(pid) => {
                put_u16(&mut b, pid.value());
                0x40
            }
            Packet::Pubrec(pid) => {
                put_u16(&mut b, pid.value());
                0x50
            }
            Packet::Pubrel(pid) => {
                put_u16(&mut b, pid.value());
                0x62
            }
            Packet::Pubcomp(pid) => {
                put_u16(&mut b, pid.value());
                0x70
            }
            Packet::Subscribe(p) => {
                put_u16(&mut b, p.pid.value());
                for (f, q) in &p.topics {
                    put_bytes(&mut b, f.as_bytes());
                    b.push(*q as u8);
                }
                0x82
            }
            Packet::Suback(p) => {
                put_u16(&mut b, p.pid.value());
                b.extend(p.topics.iter().map(|c| *c as u8));
                0x90
            }
            Packet::Unsubscribe(p) => {
                put_u16(&mut b, p.pid.value());
                for f in &p.topics {
                    put_bytes(&mut b, f.as_bytes());
                }
                0xa2
            }
            Packet::Unsuback(pid) => {
                put_u16(&mut b, pid.value());
                0xb0
            }
            Packet::Pingreq => 0xc0,
            Packet::Pingresp => 0xd0,
            Packet::Disconnect => 0xe0,
        };
        (hd, b)
    }
    pub fn encode_len(&self) -> Result<usize, Error> {
        total_len(self.parts().1.len())
    }
    pub fn encode(&self) -> Result<VarBytes, Error> {
        let (hd, body) = self.parts();
        let total = total_len(body.len())?;
        let mut out = Vec::with_capacity(total);
        out.push(hd);
        put_var_int(&mut out, body.len());
        out.extend_from_slice(&body);
        Ok(match out.len() {
            2 => VarBytes::Fixed2([out[0], out[1]]),
            4 => VarBytes::Fixed4([out[0], out[1], out[2], out[3]]),
            _ => VarBytes::Dynamic(out),
        })
    }
    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> Result<(), Error> {
        let data = self.encode()?;
        writer.write_all(data.as_ref()).await?;
        writer.flush().await?;
        Ok(())
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let header = Header::decode_async(reader).await?;
        let body = read_exact_vec(reader, header.remaining_len as usize).await?;
        if body.is_empty() {
            return header.build_empty_packet().ok_or(Error::InvalidRemainingLength);
        }
        decode_body(header, &body)
    }
    pub fn decode(bytes: &[u8]) -> Result<Option<Self>, Error> {
        match crate::now_or_panic(Self::decode_async(&mut &bytes[..])) {
            Ok(p) => Ok(Some(p)),
            Err(e) if e.is_eof() => Ok(None),
            Err(e) => Err(e),
        }
    }
}
