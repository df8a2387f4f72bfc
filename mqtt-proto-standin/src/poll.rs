use std::fmt;
use std::future::Future;
use std::io;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll};

use tokio::io::{AsyncRead, ReadBuf};

use crate::Error;

pub trait PollHeader {
    type Error;
    type Packet;
    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, Self::Error>
    where
        Self: Sized;
    fn build_empty_packet(&self) -> Option<Self::Packet>;
    fn block_decode(self, body: &[u8]) -> Result<Self::Packet, Self::Error>;
    fn remaining_len(&self) -> usize;
}

#[derive(Debug, Clone)]
pub enum GenericPollPacketState<H> {
    Header { control_byte: Option<u8>, var_idx: u8, var_int: u32 },
    Body(GenericPollBodyState<H>),
}
impl<H> Default for GenericPollPacketState<H> {
    fn default() -> Self {
        GenericPollPacketState::Header { control_byte: None, var_idx: 0, var_int: 0 }
    }
}
#[derive(Debug, Clone)]
pub struct GenericPollBodyState<H> {
    pub header: H,
    pub total: usize,
    pub idx: usize,
    pub buf: Vec<u8>,
}

pub struct GenericPollPacket<'a, T, H> {
    state: &'a mut GenericPollPacketState<H>,
    reader: &'a mut T,
}
impl<'a, T, H> fmt::Debug for GenericPollPacket<'a, T, H> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("GenericPollPacket")
    }
}
impl<'a, T, H> GenericPollPacket<'a, T, H> {
    pub fn new(state: &'a mut GenericPollPacketState<H>, reader: &'a mut T) -> Self {
        GenericPollPacket { state, reader }
    }
}

fn eof() -> io::Error {
    io::ErrorKind::UnexpectedEof.into()
}

impl<T, H> Future for GenericPollPacket<'_, T, H>
where
    T: AsyncRead + Unpin,
    H: PollHeader + Copy + Unpin,
    H::Error: From<io::Error> + From<Error>,
{
    type Output = Result<(usize, Vec<MaybeUninit<u8>>, H::Packet), H::Error>;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        loop {
            match this.state {
                GenericPollPacketState::Header { control_byte, var_idx, var_int } => {
                    let mut byte = [0u8; 1];
                    let mut buf = ReadBuf::new(&mut byte);
                    match Pin::new(&mut *this.reader).poll_read(cx, &mut buf) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                        Poll::Ready(Ok(())) => {}
                    }
                    if buf.filled().is_empty() {
                        return Poll::Ready(Err(eof().into()));
                    }
                    let byte = byte[0];
                    let Some(control) = *control_byte else {
                        *control_byte = Some(byte);
                        continue;
                    };
                    *var_int |= ((byte & 0x7f) as u32) << (7 * *var_idx);
                    *var_idx += 1;
                    if byte & 0x80 != 0 {
                        if *var_idx >= 4 {
                            return Poll::Ready(Err(Error::InvalidVarByteInt.into()));
                        }
                        continue;
                    }
                    let remaining = *var_int;
                    let total = 1 + *var_idx as usize + remaining as usize;
                    let header = H::new_with(control, remaining, total as u32)?;
                    if remaining == 0 {
                        if let Some(packet) = header.build_empty_packet() {
                            return Poll::Ready(Ok((total, Vec::new(), packet)));
                        }
                        return Poll::Ready(Err(Error::InvalidRemainingLength.into()));
                    }
                    *this.state = GenericPollPacketState::Body(GenericPollBodyState {
                        header,
                        total,
                        idx: 0,
                        buf: vec![0u8; remaining as usize],
                    });
                }
                GenericPollPacketState::Body(body) => {
                    let n = {
                        let mut buf = ReadBuf::new(&mut body.buf[body.idx..]);
                        match Pin::new(&mut *this.reader).poll_read(cx, &mut buf) {
                            Poll::Pending => return Poll::Pending,
                            Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                            Poll::Ready(Ok(())) => {}
                        }
                        buf.filled().len()
                    };
                    if n == 0 {
                        return Poll::Ready(Err(eof().into()));
                    }
                    body.idx += n;
                    if body.idx == body.buf.len() {
                        let total = body.total;
                        let data = std::mem::take(&mut body.buf);
                        let packet = body.header.block_decode(&data)?;
                        let data = data.into_iter().map(MaybeUninit::new).collect();
                        return Poll::Ready(Ok((total, data, packet)));
                    }
                }
            }
        }
    }
}
