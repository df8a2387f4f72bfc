//! MQTT 5.0 packets
use std::hash::{Hash, Hasher};
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use thiserror::Error as ThisError;
use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt};

use crate::common::*;
use crate::{GenericPollPacket, GenericPollPacketState, PollHeader};

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;

#[derive(ThisError, Debug, Clone, PartialEq, Eq)]
pub enum ErrorV5 {
    #[error("common error: {0}")]
    Common(#[from] Error),
    #[error("invalid reason code: {1}, packet type: {0:?}")]
    InvalidReasonCode(PacketType, u8),
    #[error("invalid subscription option: {0}")]
    InvalidSubscriptionOption(u8),
    #[error("invalid payload format, utf8 expected")]
    InvalidPayloadFormat,
    #[error("invalid property id: {0}")]
    InvalidPropertyId(u8),
    #[error("invalid will property: {0:?}")]
    InvalidWillProperty(PropertyId),
    #[error("invalid byte property: {0:?}, {1}")]
    InvalidByteProperty(PropertyId, u8),
    #[error("invalid property: {1:?}, packet type: {0:?}")]
    InvalidProperty(PacketType, PropertyId),
    #[error("duplicated property: {0:?}")]
    DuplicatedProperty(PropertyId),
    #[error("invalid property length: {0}")]
    InvalidPropertyLength(u32),
    #[error("invalid response topic: {0}")]
    InvalidResponseTopic(String),
}
impl From<io::Error> for ErrorV5 {
    fn from(err: io::Error) -> ErrorV5 {
        ErrorV5::Common(err.into())
    }
}
impl From<ErrorV5> for io::Error {
    fn from(err: ErrorV5) -> io::Error {
        match err {
            ErrorV5::Common(e) => e.into(),
            _ => io::ErrorKind::InvalidData.into(),
        }
    }
}
impl ErrorV5 {
    pub fn is_eof(&self) -> bool {
        matches!(self, ErrorV5::Common(e) if e.is_eof())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
    Auth,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}
impl Header {
    pub fn new(typ: PacketType, dup: bool, qos: QoS, retain: bool, remaining_len: u32, total_len: u32) -> Self {
        Header { typ, dup, qos, retain, remaining_len, total_len }
    }
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, ErrorV5> {
        use PacketType::*;
        let (typ, want) = match hd >> 4 {
            1 => (Connect, Some(0)),
            2 => (Connack, Some(0)),
            3 => (Publish, None),
            4 => (Puback, Some(0)),
            5 => (Pubrec, Some(0)),
            6 => (Pubrel, Some(2)),
            7 => (Pubcomp, Some(0)),
            8 => (Subscribe, Some(2)),
            9 => (Suback, Some(0)),
            10 => (Unsubscribe, Some(2)),
            11 => (Unsuback, Some(0)),
            12 => (Pingreq, Some(0)),
            13 => (Pingresp, Some(0)),
            14 => (Disconnect, Some(0)),
            15 => (Auth, Some(0)),
            _ => return Err(Error::InvalidHeader.into()),
        };
        if let Some(want) = want {
            if hd & 0xf != want {
                return Err(Error::InvalidHeader.into());
            }
            return Ok(Header { typ, dup: false, qos: QoS::Level0, retain: false, remaining_len, total_len });
        }
        let qos = QoS::from_u8((hd >> 1) & 0b11)?;
        Ok(Header { typ, dup: hd & 8 != 0, qos, retain: hd & 1 != 0, remaining_len, total_len })
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Header, ErrorV5> {
        let (hd, len, total) = decode_raw_header_async(reader).await?;
        Header::new_with(hd, len, total as u32)
    }
}
impl PollHeader for Header {
    type Error = ErrorV5;
    type Packet = Packet;
    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, ErrorV5> {
        Header::new_with(hd, remaining_len, total_len)
    }
    fn build_empty_packet(&self) -> Option<Packet> {
        match self.typ {
            PacketType::Pingreq => Some(Packet::Pingreq),
            PacketType::Pingresp => Some(Packet::Pingresp),
            PacketType::Disconnect => Some(Packet::Disconnect(Disconnect::new_normal())),
            PacketType::Auth => Some(Packet::Auth(Auth::new_success())),
            _ => None,
        }
    }
    fn block_decode(self, body: &[u8]) -> Result<Packet, ErrorV5> {
        decode_body(self, body)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
}

/// Variable byte integer
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct VarByteInt(u32);
impl VarByteInt {
    pub fn value(self) -> u32 {
        self.0
    }
}
impl TryFrom<u32> for VarByteInt {
    type Error = Error;
    fn try_from(v: u32) -> Result<Self, Error> {
        if v < 268_435_456 {
            Ok(VarByteInt(v))
        } else {
            Err(Error::InvalidVarByteInt)
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct UserProperty {
    pub name: Arc<str>,
    pub value: Arc<str>,
}

macro_rules! property_ids {
    ($($name:ident = $val:expr),+ $(,)?) => {
        #[repr(u8)]
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum PropertyId { $($name = $val),+ }
        impl PropertyId {
            pub fn from_u8(v: u8) -> Result<Self, ErrorV5> {
                match v { $($val => Ok(PropertyId::$name),)+ n => Err(ErrorV5::InvalidPropertyId(n)) }
            }
        }
    };
}
property_ids! {
    PayloadFormatIndicator = 0x01,
    MessageExpiryInterval = 0x02,
    ContentType = 0x03,
    ResponseTopic = 0x08,
    CorrelationData = 0x09,
    SubscriptionIdentifier = 0x0B,
    SessionExpiryInterval = 0x11,
    AssignedClientIdentifier = 0x12,
    ServerKeepAlive = 0x13,
    AuthenticationMethod = 0x15,
    AuthenticationData = 0x16,
    RequestProblemInformation = 0x17,
    WillDelayInterval = 0x18,
    RequestResponseInformation = 0x19,
    ResponseInformation = 0x1A,
    ServerReference = 0x1C,
    ReasonString = 0x1F,
    ReceiveMaximum = 0x21,
    TopicAliasMaximum = 0x22,
    TopicAlias = 0x23,
    MaximumQoS = 0x24,
    RetainAvailable = 0x25,
    UserProperty = 0x26,
    MaximumPacketSize = 0x27,
    WildcardSubscriptionAvailable = 0x28,
    SubscriptionIdentifierAvailable = 0x29,
    SharedSubscriptionAvailable = 0x2A,
}

/// How one property value is laid out.
trait PropValue: Sized {
    fn get(c: &mut Cur, id: PropertyId) -> Result<Self, ErrorV5>;
    fn put(&self, out: &mut Vec<u8>);
}
impl PropValue for u32 {
    fn get(c: &mut Cur, _: PropertyId) -> Result<Self, ErrorV5> {
        Ok(c.u32()?)
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.to_be_bytes())
    }
}
impl PropValue for u16 {
    fn get(c: &mut Cur, _: PropertyId) -> Result<Self, ErrorV5> {
        Ok(c.u16()?)
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_u16(out, *self)
    }
}
impl PropValue for bool {
    fn get(c: &mut Cur, id: PropertyId) -> Result<Self, ErrorV5> {
        match c.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            n => Err(ErrorV5::InvalidByteProperty(id, n)),
        }
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
}
impl PropValue for QoS {
    fn get(c: &mut Cur, id: PropertyId) -> Result<Self, ErrorV5> {
        match c.u8()? {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            n => Err(ErrorV5::InvalidByteProperty(id, n)),
        }
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
}
impl PropValue for Arc<str> {
    fn get(c: &mut Cur, _: PropertyId) -> Result<Self, ErrorV5> {
        Ok(Arc::from(c.string()?))
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self.as_bytes())
    }
}
impl PropValue for TopicName {
    fn get(c: &mut Cur, _: PropertyId) -> Result<Self, ErrorV5> {
        let s = c.string()?;
        TopicName::try_from(s).map_err(|_| ErrorV5::InvalidResponseTopic(s.to_owned()))
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self.as_bytes())
    }
}
impl PropValue for Bytes {
    fn get(c: &mut Cur, _: PropertyId) -> Result<Self, ErrorV5> {
        Ok(Bytes::copy_from_slice(c.bytes()?))
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self)
    }
}
impl PropValue for VarByteInt {
    fn get(c: &mut Cur, _: PropertyId) -> Result<Self, ErrorV5> {
        Ok(VarByteInt(c.var_int()?))
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_var_int(out, self.0 as usize)
    }
}
impl PropValue for UserProperty {
    fn get(c: &mut Cur, _: PropertyId) -> Result<Self, ErrorV5> {
        Ok(UserProperty { name: Arc::from(c.string()?), value: Arc::from(c.string()?) })
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self.name.as_bytes());
        put_bytes(out, self.value.as_bytes());
    }
}

macro_rules! properties {
    ($name:ident, $packet:ident, { $($f:ident : $t:ty = $id:ident),* } $(, many { $($mf:ident : $mt:ty = $mid:ident),* })?) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
        pub struct $name {
            $(pub $f: Option<$t>,)*
            $($(pub $mf: Vec<$mt>,)*)?
        }
        impl $name {
            fn put_inner(&self) -> Vec<u8> {
                #[allow(unused_mut)]
                let mut out = Vec::new();
                $(if let Some(v) = &self.$f { out.push(PropertyId::$id as u8); v.put(&mut out); })*
                $($(for v in &self.$mf { out.push(PropertyId::$mid as u8); v.put(&mut out); })*)?
                out
            }
            #[allow(dead_code)]
            fn put(&self, out: &mut Vec<u8>) {
                let inner = self.put_inner();
                put_var_int(out, inner.len());
                out.extend_from_slice(&inner);
            }
            #[allow(dead_code)]
            fn is_empty(&self) -> bool { self.put_inner().is_empty() }
            fn get_block(block: &[u8]) -> Result<Self, ErrorV5> {
                let mut c = Cur(block);
                let mut rv = $name::default();
                while !c.is_empty() {
                    let id = PropertyId::from_u8(c.u8()?)?;
                    match id {
                        $(PropertyId::$id => {
                            if rv.$f.is_some() { return Err(ErrorV5::DuplicatedProperty(id)); }
                            rv.$f = Some(<$t as PropValue>::get(&mut c, id)?);
                        })*
                        $($(PropertyId::$mid => rv.$mf.push(<$mt as PropValue>::get(&mut c, id)?),)*)?
                        #[allow(unreachable_patterns)]
                        _ => return Err(ErrorV5::InvalidProperty(PacketType::$packet, id)),
                    }
                }
                Ok(rv)
            }
            #[allow(dead_code)]
            fn get(c: &mut Cur) -> Result<Self, ErrorV5> {
                let n = c.var_int()? as usize;
                Self::get_block(c.take(n)?)
            }
            #[allow(dead_code)]
            async fn read<T: AsyncRead + Unpin>(r: &mut T) -> Result<Self, ErrorV5> {
                let (n, _) = decode_var_int_async(r).await?;
                let block = read_exact_vec(r, n as usize).await?;
                Self::get_block(&block)
            }
        }
    };
}

properties!(ConnectProperties, Connect, {
    session_expiry_interval: u32 = SessionExpiryInterval,
    receive_max: u16 = ReceiveMaximum,
    max_packet_size: u32 = MaximumPacketSize,
    topic_alias_max: u16 = TopicAliasMaximum,
    request_response_info: bool = RequestResponseInformation,
    request_problem_info: bool = RequestProblemInformation,
    auth_method: Arc<str> = AuthenticationMethod,
    auth_data: Bytes = AuthenticationData
}, many { user_properties: UserProperty = UserProperty });
properties!(WillProperties, Connect, {
    delay_interval: u32 = WillDelayInterval,
    payload_is_utf8: bool = PayloadFormatIndicator,
    message_expiry_interval: u32 = MessageExpiryInterval,
    content_type: Arc<str> = ContentType,
    response_topic: TopicName = ResponseTopic,
    correlation_data: Bytes = CorrelationData
}, many { user_properties: UserProperty = UserProperty });
properties!(ConnackProperties, Connack, {
    session_expiry_interval: u32 = SessionExpiryInterval,
    receive_max: u16 = ReceiveMaximum,
    max_qos: QoS = MaximumQoS,
    retain_available: bool = RetainAvailable,
    max_packet_size: u32 = MaximumPacketSize,
    assigned_client_id: Arc<str> = AssignedClientIdentifier,
    topic_alias_max: u16 = TopicAliasMaximum,
    reason_string: Arc<str> = ReasonString,
    wildcard_subscription_available: bool = WildcardSubscriptionAvailable,
    subscription_id_available: bool = SubscriptionIdentifierAvailable,
    shared_subscription_available: bool = SharedSubscriptionAvailable,
    server_keep_alive: u16 = ServerKeepAlive,
    response_info: Arc<str> = ResponseInformation,
    server_reference: Arc<str> = ServerReference,
    auth_method: Arc<str> = AuthenticationMethod,
    auth_data: Bytes = AuthenticationData
}, many { user_properties: UserProperty = UserProperty });
properties!(DisconnectProperties, Disconnect, {
    session_expiry_interval: u32 = SessionExpiryInterval,
    reason_string: Arc<str> = ReasonString,
    server_reference: Arc<str> = ServerReference
}, many { user_properties: UserProperty = UserProperty });
properties!(AuthProperties, Auth, {
    auth_method: Arc<str> = AuthenticationMethod,
    auth_data: Bytes = AuthenticationData,
    reason_string: Arc<str> = ReasonString
}, many { user_properties: UserProperty = UserProperty });
properties!(PublishProperties, Publish, {
    payload_is_utf8: bool = PayloadFormatIndicator,
    message_expiry_interval: u32 = MessageExpiryInterval,
    topic_alias: u16 = TopicAlias,
    response_topic: TopicName = ResponseTopic,
    correlation_data: Bytes = CorrelationData,
    content_type: Arc<str> = ContentType
}, many { user_properties: UserProperty = UserProperty, subscription_ids: VarByteInt = SubscriptionIdentifier });
properties!(PubackProperties, Puback, { reason_string: Arc<str> = ReasonString }, many { user_properties: UserProperty = UserProperty });
properties!(PubrecProperties, Pubrec, { reason_string: Arc<str> = ReasonString }, many { user_properties: UserProperty = UserProperty });
properties!(PubrelProperties, Pubrel, { reason_string: Arc<str> = ReasonString }, many { user_properties: UserProperty = UserProperty });
properties!(PubcompProperties, Pubcomp, { reason_string: Arc<str> = ReasonString }, many { user_properties: UserProperty = UserProperty });
properties!(SubscribeProperties, Subscribe, { subscription_id: VarByteInt = SubscriptionIdentifier }, many { user_properties: UserProperty = UserProperty });
properties!(SubackProperties, Suback, { reason_string: Arc<str> = ReasonString }, many { user_properties: UserProperty = UserProperty });
properties!(UnsubscribeProperties, Unsubscribe, {}, many { user_properties: UserProperty = UserProperty });
properties!(UnsubackProperties, Unsuback, { reason_string: Arc<str> = ReasonString }, many { user_properties: UserProperty = UserProperty });

reason_code!(ConnectReasonCode, |n| ErrorV5::InvalidReasonCode(PacketType::Connack, n), {
    Success = 0x00, UnspecifiedError = 0x80, MalformedPacket = 0x81, ProtocolError = 0x82,
    ImplementationSpecificError = 0x83, UnsupportedProtocolVersion = 0x84,
    ClientIdentifierNotValid = 0x85, BadUserNameOrPassword = 0x86, NotAuthorized = 0x87,
    ServerUnavailable = 0x88, ServerBusy = 0x89, Banned = 0x8A, BadAuthMethod = 0x8C,
    TopicNameInvalid = 0x90, PacketTooLarge = 0x95, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9A, QoSNotSupported = 0x9B,
    UseAnotherServer = 0x9C, ServerMoved = 0x9D, ConnectionRateExceeded = 0x9F,
});
reason_code!(DisconnectReasonCode, |n| ErrorV5::InvalidReasonCode(PacketType::Disconnect, n), {
    NormalDisconnect = 0x00, DisconnectWithWillMessage = 0x04, UnspecifiedError = 0x80,
    MalformedPacket = 0x81, ProtocolError = 0x82, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, ServerBusy = 0x89, ServerShuttingDown = 0x8B, KeepAliveTimeout = 0x8D,
    SessionTakenOver = 0x8E, TopicFilterInvalid = 0x8F, TopicNameInvalid = 0x90,
    ReceiveMaximumExceeded = 0x93, TopicAliasInvalid = 0x94, PacketTooLarge = 0x95,
    MessageRateTooHigh = 0x96, QuotaExceeded = 0x97, AdministrativeAction = 0x98,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9A, QoSNotSupported = 0x9B,
    UserAnotherServer = 0x9C, ServerMoved = 0x9D, SharedSubscriptionNotSupported = 0x9E,
    ConnectionRateExceeded = 0x9F, MaximumConnectTime = 0xA0,
    SubscriptionIdentifiersNotSupported = 0xA1, WildcardSubscriptionsNotSupported = 0xA2,
});
reason_code!(AuthReasonCode, |n| ErrorV5::InvalidReasonCode(PacketType::Auth, n), {
    Success = 0x00, ContinueAuthentication = 0x18, ReAuthentication = 0x19,
});
reason_code!(PubackReasonCode, |n| ErrorV5::InvalidReasonCode(PacketType::Puback, n), {
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99,
});
reason_code!(PubrecReasonCode, |n| ErrorV5::InvalidReasonCode(PacketType::Pubrec, n), {
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99,
});
reason_code!(PubrelReasonCode, |n| ErrorV5::InvalidReasonCode(PacketType::Pubrel, n), {
    Success = 0x00, PacketIdentifierNotFound = 0x92,
});
reason_code!(PubcompReasonCode, |n| ErrorV5::InvalidReasonCode(PacketType::Pubcomp, n), {
    Success = 0x00, PacketIdentifierNotFound = 0x92,
});
reason_code!(SubscribeReasonCode, |n| ErrorV5::InvalidReasonCode(PacketType::Suback, n), {
    GrantedQoS0 = 0x00, GrantedQoS1 = 0x01, GrantedQoS2 = 0x02, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8F,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, SharedSubscriptionNotSupported = 0x9E,
    SubscriptionIdentifiersNotSupported = 0xA1, WildcardSubscriptionsNotSupported = 0xA2,
});
reason_code!(UnsubscribeReasonCode, |n| ErrorV5::InvalidReasonCode(PacketType::Unsuback, n), {
    Success = 0x00, NoSubscriptionExisted = 0x11, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8F,
    PacketIdentifierInUse = 0x91,
});

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_start: bool,
    pub keep_alive: u16,
    pub properties: ConnectProperties,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}
impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V500,
            clean_start: true,
            keep_alive,
            properties: ConnectProperties::default(),
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    pub async fn decode_stream<T: AsyncRead + Unpin>(reader: &mut T, header: Header) -> Result<Self, ErrorV5> {
        let protocol = Protocol::decode_async(reader).await?;
        Self::decode_stream_with_protocol(reader, header, protocol).await
    }
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        _header: Header,
        protocol: Protocol,
    ) -> Result<Self, ErrorV5> {
        if protocol != Protocol::V500 {
            return Err(Error::UnexpectedProtocol(protocol).into());
        }
        let flags = read_u8(reader).await?;
        if flags & 1 != 0 {
            return Err(Error::InvalidConnectFlags(flags).into());
        }
        let keep_alive = read_u16(reader).await?;
        let properties = ConnectProperties::read(reader).await?;
        let client_id = Arc::from(read_string(reader).await?);
        let last_will = if flags & 0b100 != 0 {
            let properties = WillProperties::read(reader).await?;
            let topic_name = TopicName::try_from(read_string(reader).await?)?;
            let payload = read_bytes(reader).await?;
            let qos = QoS::from_u8((flags >> 3) & 0b11)?;
            Some(LastWill { qos, retain: flags & 0b10_0000 != 0, topic_name, payload: payload.into(), properties })
        } else if flags & 0b11_1000 != 0 {
            return Err(Error::InvalidConnectFlags(flags).into());
        } else {
            None
        };
        let username = if flags & 0x80 != 0 { Some(Arc::from(read_string(reader).await?)) } else { None };
        let password = if flags & 0x40 != 0 { Some(Bytes::from(read_bytes(reader).await?)) } else { None };
        Ok(Connect {
            protocol,
            clean_start: flags & 0b10 != 0,
            keep_alive,
            properties,
            client_id,
            last_will,
            username,
            password,
        })
    }
    fn put(&self, out: &mut Vec<u8>) {
        self.protocol.encode_to(out);
        let mut flags = 0u8;
        if self.clean_start {
            flags |= 0b10;
        }
        if self.username.is_some() {
            flags |= 0x80;
        }
        if self.password.is_some() {
            flags |= 0x40;
        }
        if let Some(w) = &self.last_will {
            flags |= 0b100 | ((w.qos as u8) << 3);
            if w.retain {
                flags |= 0b10_0000;
            }
        }
        out.push(flags);
        put_u16(out, self.keep_alive);
        self.properties.put(out);
        put_bytes(out, self.client_id.as_bytes());
        if let Some(w) = &self.last_will {
            w.properties.put(out);
            put_bytes(out, w.topic_name.as_bytes());
            put_bytes(out, &w.payload);
        }
        if let Some(u) = &self.username {
            put_bytes(out, u.as_bytes());
        }
        if let Some(p) = &self.password {
            put_bytes(out, p);
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: WillProperties,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, payload: Bytes) -> Self {
        LastWill { qos, retain: false, topic_name, payload, properties: WillProperties::default() }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub reason_code: ConnectReasonCode,
    pub properties: ConnackProperties,
}
impl Connack {
    pub fn new(session_present: bool, reason_code: ConnectReasonCode) -> Self {
        Connack { session_present, reason_code, properties: ConnackProperties::default() }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Disconnect {
    pub reason_code: DisconnectReasonCode,
    pub properties: DisconnectProperties,
}
impl Disconnect {
    pub fn new(reason_code: DisconnectReasonCode) -> Self {
        Disconnect { reason_code, properties: DisconnectProperties::default() }
    }
    pub fn new_normal() -> Self {
        Self::new(DisconnectReasonCode::NormalDisconnect)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Auth {
    pub reason_code: AuthReasonCode,
    pub properties: AuthProperties,
}
impl Auth {
    pub fn new(reason_code: AuthReasonCode) -> Self {
        Auth { reason_code, properties: AuthProperties::default() }
    }
    pub fn new_success() -> Self {
        Self::new(AuthReasonCode::Success)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: PublishProperties,
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Publish {
        Publish { dup: false, retain: false, qos_pid, topic_name, payload, properties: PublishProperties::default() }
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self.topic_name.as_bytes());
        if let Some(pid) = self.qos_pid.pid() {
            put_u16(out, pid.value());
        }
        self.properties.put(out);
        out.extend_from_slice(&self.payload);
    }
}
/// The DUP flag describes the delivery attempt, not the message, so it is not hashed.
impl Hash for Publish {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.retain.hash(state);
        self.qos_pid.hash(state);
        self.topic_name.hash(state);
        self.payload.hash(state);
        self.properties.hash(state);
    }
}
impl Encodable for Publish {
    fn encode<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
        let mut v = Vec::new();
        self.put(&mut v);
        writer.write_all(&v)
    }
    fn encode_len(&self) -> usize {
        let mut v = Vec::new();
        self.put(&mut v);
        v.len()
    }
}

macro_rules! ack {
    ($name:ident, $code:ident, $props:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name {
            pub pid: Pid,
            pub reason_code: $code,
            pub properties: $props,
        }
        impl $name {
            pub fn new(pid: Pid, reason_code: $code) -> Self {
                $name { pid, reason_code, properties: $props::default() }
            }
            pub fn new_success(pid: Pid) -> Self {
                Self::new(pid, $code::Success)
            }
            fn put(&self, out: &mut Vec<u8>) {
                put_u16(out, self.pid.value());
                if self.properties.is_empty() {
                    if self.reason_code != $code::Success {
                        out.push(self.reason_code as u8);
                    }
                } else {
                    out.push(self.reason_code as u8);
                    self.properties.put(out);
                }
            }
            fn get(c: &mut Cur) -> Result<Self, ErrorV5> {
                let pid = c.pid()?;
                if c.is_empty() {
                    return Ok(Self::new_success(pid));
                }
                let n = c.u8()?;
                let reason_code =
                    $code::from_u8(n).ok_or(ErrorV5::InvalidReasonCode(PacketType::$name, n))?;
                let properties = if c.is_empty() { $props::default() } else { $props::get(c)? };
                Ok($name { pid, reason_code, properties })
            }
        }
    };
}
ack!(Puback, PubackReasonCode, PubackProperties);
ack!(Pubrec, PubrecReasonCode, PubrecProperties);
ack!(Pubrel, PubrelReasonCode, PubrelProperties);
ack!(Pubcomp, PubcompReasonCode, PubcompProperties);

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum RetainHandling {
    SendAtSubscribe = 0,
    SendAtSubscribeIfNotExist = 1,
    DoNotSend = 2,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SubscriptionOptions {
    pub max_qos: QoS,
    pub no_local: bool,
    pub retain_as_published: bool,
    pub retain_handling: RetainHandling,
}
impl SubscriptionOptions {
    pub fn new(max_qos: QoS) -> Self {
        SubscriptionOptions {
            max_qos,
            no_local: false,
            retain_as_published: true,
            retain_handling: RetainHandling::SendAtSubscribe,
        }
    }
    pub fn to_u8(&self) -> u8 {
        self.max_qos as u8
            | ((self.no_local as u8) << 2)
            | ((self.retain_as_published as u8) << 3)
            | ((self.retain_handling as u8) << 4)
    }
    fn from_u8(v: u8) -> Result<Self, ErrorV5> {
        if v & 0xc0 != 0 {
            return Err(ErrorV5::InvalidSubscriptionOption(v));
        }
        let max_qos = QoS::from_u8(v & 3)?;
        let retain_handling = match (v >> 4) & 3 {
            0 => RetainHandling::SendAtSubscribe,
            1 => RetainHandling::SendAtSubscribeIfNotExist,
            2 => RetainHandling::DoNotSend,
            _ => return Err(ErrorV5::InvalidSubscriptionOption(v)),
        };
        Ok(SubscriptionOptions {
            max_qos,
            no_local: v & 4 != 0,
            retain_as_published: v & 8 != 0,
            retain_handling,
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub properties: SubscribeProperties,
    pub topics: Vec<(TopicFilter, SubscriptionOptions)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, SubscriptionOptions)>) -> Self {
        Subscribe { pid, properties: SubscribeProperties::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub properties: SubackProperties,
    pub topics: Vec<SubscribeReasonCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReasonCode>) -> Self {
        Suback { pid, properties: SubackProperties::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub properties: UnsubscribeProperties,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe { pid, properties: UnsubscribeProperties::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsuback {
    pub pid: Pid,
    pub properties: UnsubackProperties,
    pub topics: Vec<UnsubscribeReasonCode>,
}
impl Unsuback {
    pub fn new(pid: Pid, topics: Vec<UnsubscribeReasonCode>) -> Self {
        Unsuback { pid, properties: UnsubackProperties::default(), topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Puback),
    Pubrec(Pubrec),
    Pubrel(Pubrel),
    Pubcomp(Pubcomp),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Unsuback),
    Pingreq,
    Pingresp,
    Disconnect(Disconnect),
    Auth(Auth),
}
macro_rules! from_pkt {
    ($($t:ident),*) => {$(
        impl From<$t> for Packet { fn from(p: $t) -> Packet { Packet::$t(p) } }
    )*};
}
from_pkt!(
    Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe, Unsuback,
    Disconnect, Auth
);

fn decode_body(header: Header, body: &[u8]) -> Result<Packet, ErrorV5> {
    let mut c = Cur(body);
    let packet = match header.typ {
        PacketType::Connect => {
            let mut r = body;
            let pkt = crate::now_or_panic(Connect::decode_stream(&mut r, header)).map_err(|e| {
                if e.is_eof() {
                    Error::InvalidRemainingLength.into()
                } else {
                    e
                }
            })?;
            c = Cur(r);
            Packet::Connect(pkt)
        }
        PacketType::Connack => {
            let flags = c.u8()?;
            if flags > 1 {
                return Err(Error::InvalidConnackFlags(flags).into());
            }
            let n = c.u8()?;
            let reason_code =
                ConnectReasonCode::from_u8(n).ok_or(ErrorV5::InvalidReasonCode(header.typ, n))?;
            let properties = ConnackProperties::get(&mut c)?;
            Packet::Connack(Connack { session_present: flags == 1, reason_code, properties })
        }
        PacketType::Publish => {
            let topic_name = TopicName::try_from(c.string()?)?;
            let qos_pid = match header.qos {
                QoS::Level0 => QosPid::Level0,
                QoS::Level1 => QosPid::Level1(c.pid()?),
                QoS::Level2 => QosPid::Level2(c.pid()?),
            };
            let properties = PublishProperties::get(&mut c)?;
            let n = c.0.len();
            let payload = Bytes::copy_from_slice(c.take(n)?);
            if properties.payload_is_utf8 == Some(true) && std::str::from_utf8(&payload).is_err() {
                return Err(ErrorV5::InvalidPayloadFormat);
            }
            Packet::Publish(Publish { dup: header.dup, retain: header.retain, qos_pid, topic_name, payload, properties })
        }
        PacketType::Puback => Packet::Puback(Puback::get(&mut c)?),
        PacketType::Pubrec => Packet::Pubrec(Pubrec::get(&mut c)?),
        PacketType::Pubrel => Packet::Pubrel(Pubrel::get(&mut c)?),
        PacketType::Pubcomp => Packet::Pubcomp(Pubcomp::get(&mut c)?),
        PacketType::Subscribe => {
            let pid = c.pid()?;
            let properties = SubscribeProperties::get(&mut c)?;
            let mut topics = Vec::new();
            while !c.is_empty() {
                let filter = TopicFilter::try_from(c.string()?)?;
                topics.push((filter, SubscriptionOptions::from_u8(c.u8()?)?));
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription.into());
            }
            Packet::Subscribe(Subscribe { pid, properties, topics })
        }
        PacketType::Suback => {
            let pid = c.pid()?;
            let properties = SubackProperties::get(&mut c)?;
            let mut topics = Vec::new();
            while !c.is_empty() {
                let n = c.u8()?;
                topics.push(
                    SubscribeReasonCode::from_u8(n).ok_or(ErrorV5::InvalidReasonCode(header.typ, n))?,
                );
            }
            Packet::Suback(Suback { pid, properties, topics })
        }
        PacketType::Unsubscribe => {
            let pid = c.pid()?;
            let properties = UnsubscribeProperties::get(&mut c)?;
            let mut topics = Vec::new();
            while !c.is_empty() {
                topics.push(TopicFilter::try_from(c.string()?)?);
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription.into());
            }
            Packet::Unsubscribe(Unsubscribe { pid, properties, topics })
        }
        PacketType::Unsuback => {
            let pid = c.pid()?;
            let properties = UnsubackProperties::get(&mut c)?;
            let mut topics = Vec::new();
            while !c.is_empty() {
                let n = c.u8()?;
                topics.push(
                    UnsubscribeReasonCode::from_u8(n).ok_or(ErrorV5::InvalidReasonCode(header.typ, n))?,
                );
            }
            Packet::Unsuback(Unsuback { pid, properties, topics })
        }
        PacketType::Pingreq => Packet::Pingreq,
        PacketType::Pingresp => Packet::Pingresp,
        PacketType::Disconnect => {
            let n = c.u8()?;
            let reason_code =
                DisconnectReasonCode::from_u8(n).ok_or(ErrorV5::InvalidReasonCode(header.typ, n))?;
            let properties =
                if c.is_empty() { DisconnectProperties::default() } else { DisconnectProperties::get(&mut c)? };
            Packet::Disconnect(Disconnect { reason_code, properties })
        }
        PacketType::Auth => {
            let n = c.u8()?;
            let reason_code =
                AuthReasonCode::from_u8(n).ok_or(ErrorV5::InvalidReasonCode(header.typ, n))?;
            let properties = if c.is_empty() { AuthProperties::default() } else { AuthProperties::get(&mut c)? };
            Packet::Auth(Auth { reason_code, properties })
        }
    };
    if !c.is_empty() {
        return Err(Error::InvalidRemainingLength.into());
    }
    Ok(packet)
}

impl Packet {
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect(_) => PacketType::Disconnect,
            Packet::Auth(_) => PacketType::Auth,
        }
    }
    fn parts(&self) -> (u8, Vec<u8>) {
        let mut b = Vec::new();
        let hd = match self {
            Packet::Connect(p) => {
                p.put(&mut b);
                0x10
            }
            Packet::Connack(p) => {
                b.push(p.session_present as u8);
                b.push(p.reason_code as u8);
                p.properties.put(&mut b);
                0x20
            }
            Packet::Publish(p) => {
                p.put(&mut b);
                0x30 | ((p.dup as u8) << 3) | ((p.qos_pid.qos() as u8) << 1) | p.retain as u8
            }
            Packet::Puback(p) => {
                p.put(&mut b);
                0x40
            }
            Packet::Pubrec(p) => {
                p.put(&mut b);
                0x50
            }
            Packet::Pubrel(p) => {
                p.put(&mut b);
                0x62
            }
            Packet::Pubcomp(p) => {
                p.put(&mut b);
                0x70
            }
            Packet::Subscribe(p) => {
                put_u16(&mut b, p.pid.value());
                p.properties.put(&mut b);
                for (f, o) in &p.topics {
                    put_bytes(&mut b, f.as_bytes());
                    b.push(o.to_u8());
                }
                0x82
            }
            Packet::Suback(p) => {
                put_u16(&mut b, p.pid.value());
                p.properties.put(&mut b);
                b.extend(p.topics.iter().map(|c| *c as u8));
                0x90
            }
            Packet::Unsubscribe(p) => {
                put_u16(&mut b, p.pid.value());
                p.properties.put(&mut b);
                for f in &p.topics {
                    put_bytes(&mut b, f.as_bytes());
                }
                0xa2
            }
            Packet::Unsuback(p) => {
                put_u16(&mut b, p.pid.value());
                p.properties.put(&mut b);
                b.extend(p.topics.iter().map(|c| *c as u8));
                0xb0
            }
            Packet::Pingreq => 0xc0,
            Packet::Pingresp => 0xd0,
            Packet::Disconnect(p) => {
                if p.properties.is_empty() {
                    if p.reason_code != DisconnectReasonCode::NormalDisconnect {
                        b.push(p.reason_code as u8);
                    }
                } else {
                    b.push(p.reason_code as u8);
                    p.properties.put(&mut b);
                }
                0xe0
            }
            Packet::Auth(p) => {
                if !(p.reason_code == AuthReasonCode::Success && p.properties.is_empty()) {
                    b.push(p.reason_code as u8);
                    p.properties.put(&mut b);
                }
                0xf0
            }
        };
        (hd, b)
    }
    pub fn encode_len(&self) -> Result<usize, ErrorV5> {
        Ok(total_len(self.parts().1.len())?)
    }
    pub fn encode(&self) -> Result<VarBytes, ErrorV5> {
        let (hd, body) = self.parts();
        let total = total_len(body.len())?;
        let mut out = Vec::with_capacity(total);
        out.push(hd);
        put_var_int(&mut out, body.len());
        out.extend_from_slice(&body);
        Ok(match out.len() {
            2 => VarBytes::Fixed2([out[0], out[1]]),
            4 => VarBytes::Fixed4([out[0], out[1], out[2], out[3]]),
            _ => VarBytes::Dynamic(out),
        })
    }
    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> Result<(), ErrorV5> {
        let data = self.encode()?;
        writer.write_all(data.as_ref()).await?;
        writer.flush().await?;
        Ok(())
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, ErrorV5> {
        let header = Header::decode_async(reader).await?;
        let body = read_exact_vec(reader, header.remaining_len as usize).await?;
        if body.is_empty() {
            return header.build_empty_packet().ok_or(Error::InvalidRemainingLength.into());
        }
        decode_body(header, &body)
    }
    pub fn decode(bytes: &[u8]) -> Result<Option<Self>, ErrorV5> {
        match crate::now_or_panic(Self::decode_async(&mut &bytes[..])) {
            Ok(p) => Ok(Some(p)),
            Err(e) if e.is_eof() => Ok(None),
            Err(e) => Err(e),
        }
    }
}
