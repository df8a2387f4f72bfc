//! A closed world around the real broker: in-memory connections, a virtual
//! clock and a scheduler that decides which woken connection task runs next.
//! Connection tasks are polled only when their waker fired, so a lost wakeup
//! shows as missing output. Tasks the broker spawns itself (offline sessions,
//! timers) run on a current-thread tokio runtime with paused time.
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use akasa_core::server::{handle_accept, ConnectionArgs};
use akasa_core::{Config, GlobalState};
use mqtt_proto::{v3, v5};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

use crate::clock;
use crate::wire::Codec;
use crate::hook::ScriptHook;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ver {
    V310,
    V311,
    V5,
}
impl Ver {
    pub fn is_v5(self) -> bool {
        self == Ver::V5
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RxPub {
    pub topic: String,
    pub payload: String,
    pub qos: u8,
    pub dup: bool,
    pub retain: bool,
    pub pid: u16,
    pub ids: Vec<u32>,
    pub expiry: Option<u32>,
    /// every other property, in a canonical rendering
    pub rest: String,
}

/// One packet (or event) seen by a client.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Rx {
    Connack { sp: bool, code: u8 },
    Pub(RxPub),
    Puback(u16, u8),
    Pubrec(u16, u8),
    Pubrel(u16, u8),
    Pubcomp(u16, u8),
    Suback(u16, Vec<u8>),
    Unsuback(u16, Vec<u8>),
    Pingresp,
    Disconnect(u8),
    Auth(u8),
    /// The server closed the connection.
    Closed,
}

thread_local! {
    static CHOOSER: std::cell::RefCell<Option<mc_engine::Chooser>> = const { std::cell::RefCell::new(None) };
}
/// Runs `f` with `ch` resolving every environment choice made on this thread.
pub fn with_chooser<R>(ch: &mut mc_engine::Chooser, f: impl FnOnce() -> R) -> R {
    struct Back<'a>(&'a mut mc_engine::Chooser);
    impl Drop for Back<'_> {
        fn drop(&mut self) {
            if let Some(c) = CHOOSER.with(|x| x.borrow_mut().take()) {
                *self.0 = c;
            }
        }
    }
    let c = std::mem::replace(ch, mc_engine::Chooser::new(vec![]));
    CHOOSER.with(|x| *x.borrow_mut() = Some(c));
    let _b = Back(ch);
    f()
}
pub fn choose(n: usize, what: impl FnOnce(usize) -> String) -> usize {
    CHOOSER.with(|x| match x.borrow_mut().as_mut() {
        Some(c) if n > 1 => {
            let k = c.choose(n);
            if k > 0 {
                let w = what(k);
                c.note(w);
            }
            k
        }
        _ => 0,
    })
}

#[derive(Default)]
pub struct Pipe {
    /// every read, write and flush is a choice of the explorer
    pub adversary: bool,
    /// calls the adversary answered Pending; cleared by `release`
    blocked_read: bool,
    blocked_write: bool,
    blocked_flush: bool,
    /// data leaves only when flushed (a buffering transport, as TLS is)
    pub flush_matters: bool,
    pub id: usize,
    pub inbound: VecDeque<u8>,
    pub eof: bool,
    pub read_err: Option<io::ErrorKind>,
    pub outbound: Vec<u8>,
    /// Bytes the peer is still willing to take (None: unlimited).
    pub window: Option<usize>,
    /// Largest read / write the transport completes at once.
    pub read_chunk: Option<usize>,
    pub write_chunk: Option<usize>,
    pub write_err: Option<io::ErrorKind>,
    pub shutdown: bool,
    pub dropped: bool,
    /// poll_flush answers Pending until opened
    pub flush_blocked: bool,
    pub flushed_upto: usize,
    read_waker: Option<Waker>,
    write_waker: Option<Waker>,
    flush_waker: Option<Waker>,
}
impl Pipe {
    fn wake_read(&mut self) {
        if let Some(w) = self.read_waker.take() {
            w.wake();
        }
    }
    fn wake_write(&mut self) {
        if let Some(w) = self.write_waker.take() {
            w.wake();
        }
        if let Some(w) = self.flush_waker.take() {
            w.wake();
        }
    }
}
pub type SharedPipe = Arc<Mutex<Pipe>>;

pub struct MemConn(pub SharedPipe);
impl Drop for MemConn {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped = true;
    }
}
impl AsyncRead for MemConn {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut p = self.0.lock().unwrap();
        if p.blocked_read {
            p.read_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if !p.inbound.is_empty() {
            let mut n = p.inbound.len().min(buf.remaining());
            if p.adversary {
                let id = p.id;
                match choose(if n > 1 { 3 } else { 2 }, |k| format!("conn {id}: read of {n} {}", if k == 1 { "not ready" } else { "gives 1 byte" })) {
                    1 => {
                        p.blocked_read = true;
                        p.read_waker = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                    2 => n = 1,
                    _ => {}
                }
            }
            if let Some(c) = p.read_chunk {
                n = n.min(c.max(1));
            }
            let data: Vec<u8> = p.inbound.drain(..n).collect();
            buf.put_slice(&data);
            return Poll::Ready(Ok(()));
        }
        if let Some(k) = p.read_err {
            return Poll::Ready(Err(k.into()));
        }
        if p.eof {
            return Poll::Ready(Ok(()));
        }
        p.read_waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl AsyncWrite for MemConn {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0.lock().unwrap();
        if let Some(k) = p.write_err {
            return Poll::Ready(Err(k.into()));
        }
        if p.shutdown {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let mut n = buf.len();
        if p.blocked_write {
            p.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if p.adversary && n > 0 {
            let id = p.id;
            let len = n;
            match choose(if n > 2 { 5 } else { 3 }, |k| {
                format!("conn {id}: write of {len} {}", ["", "not ready", "not ready just now", "takes 1 byte", "takes all but 1 byte"][k])
            }) {
                1 => {
                    p.blocked_write = true;
                    p.write_waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                2 => {
                    // ready again at once
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                3 => n = 1,
                4 => n -= 1,
                _ => {}
            }
        }
        if let Some(c) = p.write_chunk {
            n = n.min(c.max(1));
        }
        if let Some(w) = p.window {
            n = n.min(w);
            if n == 0 && !buf.is_empty() {
                p.write_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            p.window = Some(w - n);
        }
        p.outbound.extend_from_slice(&buf[..n]);
        if p.outbound.len() > 1 << 20 {
            p.write_err = Some(io::ErrorKind::Other);
            drop(p);
            panic!("the broker writes without end");
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.0.lock().unwrap();
        if let Some(k) = p.write_err {
            return Poll::Ready(Err(k.into()));
        }
        if !p.blocked_flush && p.adversary && p.flush_matters && p.flushed_upto < p.outbound.len() {
            let id = p.id;
            match choose(3, |k| format!("conn {id}: flush not ready{}", if k == 2 { " just now" } else { "" })) {
                1 => p.blocked_flush = true,
                2 => {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                _ => {}
            }
        }
        if p.flush_blocked || p.blocked_flush {
            p.flush_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        p.flushed_upto = p.outbound.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.lock().unwrap().shutdown = true;
        Poll::Ready(Ok(()))
    }
}

pub struct Flag(Arc<AtomicBool>);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub struct Conn {
    fut: Option<Pin<Box<dyn Future<Output = io::Result<()>> + Send>>>,
    flag: Arc<Flag>,
    pub pipe: SharedPipe,
    pub ver: Ver,
    pub result: Option<Result<(), io::ErrorKind>>,
    parsed: usize,
    aliases: BTreeMap<u16, String>,
    pub alias_max: u16,
    pub closed_reported: bool,
    /// close our side when the server shut its side down
    pub polite: bool,
    /// violations of the wire contract noticed while decoding
    pub wire_errors: Vec<String>,
    /// broker -> client deliveries this connection has not acknowledged yet
    pub unacked: Vec<(u16, Stage)>,
    pub max_size: usize,
    pub polls: u64,
    pub last_connack: Option<v5::ConnackProperties>,
    pub last_auth: Option<v5::AuthProperties>,
    /// layers below MQTT
    pub codec: Option<Box<Codec>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Stage {
    Pub1,
    Pub2,
    Rel,
}

pub struct World {
    pub conns: Vec<Conn>,
    pub global: Arc<GlobalState>,
    pub hook: ScriptHook,
    rt: Option<tokio::runtime::Runtime>,
    panics0: u64,
    pub steps: u64,
}

impl Drop for World {
    fn drop(&mut self) {
        let rt = self.rt.take();
        {
            let _g = rt.as_ref().map(|r| r.enter());
            self.conns.clear();
        }
        drop(rt);
        clock::disable();
    }
}

pub fn plain_args() -> ConnectionArgs {
    ConnectionArgs {
        addr: "127.0.0.1:1883".parse().unwrap(),
        reuse_port: false,
        proxy: false,
        proxy_tls_termination: false,
        websocket: false,
        tls_acceptor: None,
    }
}

impl World {
    pub fn new(config: Config) -> World {
        Self::with_global(GlobalState::new(config))
    }
    pub fn with_global(global: GlobalState) -> World {
        clock::enable();
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            // which branch of a select is looked at first
            .rng_seed(tokio::runtime::RngSeed::from_bytes(b"akasa"))
            .build()
            .unwrap();
        World {
            conns: Vec::new(),
            global: Arc::new(global),
            hook: ScriptHook::default(),
            rt: Some(rt),
            panics0: mc_engine::panic_count(),
            steps: 0,
        }
    }
    pub fn open(&mut self, ver: Ver) -> usize {
        self.open_with(ver, plain_args())
    }
    pub fn open_with(&mut self, ver: Ver, args: ConnectionArgs) -> usize {
        let pipe: SharedPipe = Arc::new(Mutex::new(Pipe::default()));
        let id = self.conns.len();
        let peer = format!("127.0.0.1:{}", 10000 + id).parse().unwrap();
        pipe.lock().unwrap().id = id;
        let conn = MemConn(pipe.clone());
        let fut = handle_accept(conn, args, peer, self.hook.clone(), self.global.clone());
        self.conns.push(Conn {
            fut: Some(Box::pin(fut)),
            flag: Arc::new(Flag(Arc::new(AtomicBool::new(true)))),
            pipe,
            ver,
            result: None,
            parsed: 0,
            aliases: BTreeMap::new(),
            alias_max: 0,
            closed_reported: false,
            polite: true,
            wire_errors: vec![],
            unacked: vec![],
            max_size: usize::MAX,
            polls: 0,
            last_connack: None,
            last_auth: None,
            codec: None,
        });
        id
    }
    /// A connection through TLS and/or WebSocket, its handshakes completed.
    pub fn open_stack(&mut self, ver: Ver, tls: bool, ws: bool) -> usize {
        let mut args = plain_args();
        args.websocket = ws;
        args.tls_acceptor = tls.then(crate::wire::acceptor);
        let c = self.open_with(ver, args);
        self.conns[c].codec = Some(Box::new(Codec::new(tls, ws)));
        for _ in 0..10 {
            self.pull(c);
            let out = self.conns[c].codec.as_mut().unwrap().pending();
            if out.is_empty() {
                break;
            }
            self.send_raw(c, &out);
            self.quiesce();
        }
        assert!(!self.conns[c].codec.as_ref().unwrap().handshaking(), "TLS handshake");
        if ws {
            let out = self.conns[c].codec.as_mut().unwrap().seal(crate::wire::REQUEST.as_bytes());
            self.send_raw(c, &out);
            self.quiesce();
            self.pull(c);
            let r = self.conns[c].codec.as_ref().unwrap().response.clone().unwrap_or_default();
            assert!(r.starts_with("HTTP/1.1 101"), "upgrade: {r:?}");
        }
        c
    }
    /// Decode what the server wrote below MQTT.
    pub fn pull(&mut self, c: usize) {
        let conn = &mut self.conns[c];
        if let Some(k) = &mut conn.codec {
            k.pull(&conn.pipe.lock().unwrap().outbound);
            conn.wire_errors.append(&mut k.errors);
        }
    }
    pub fn send(&mut self, c: usize, bytes: &[u8]) {
        match &mut self.conns[c].codec {
            None => self.send_raw(c, bytes),
            Some(k) => {
                let b = k.wrap(bytes);
                self.send_raw(c, &b)
            }
        }
    }
    pub fn send_raw(&mut self, c: usize, bytes: &[u8]) {
        let mut p = self.conns[c].pipe.lock().unwrap();
        p.inbound.extend(bytes);
        p.wake_read();
    }
    pub fn send_v5(&mut self, c: usize, p: impl Into<v5::Packet>) {
        let b = p.into().encode().expect("client packet");
        self.send(c, b.as_slice());
    }
    pub fn send_v3(&mut self, c: usize, p: impl Into<v3::Packet>) {
        let b = p.into().encode().expect("client packet");
        self.send(c, b.as_slice());
    }
    pub fn eof(&mut self, c: usize) {
        let mut p = self.conns[c].pipe.lock().unwrap();
        p.eof = true;
        p.wake_read();
    }
    /// The transport breaks: reads and writes fail from now on.
    pub fn reset(&mut self, c: usize) {
        let mut p = self.conns[c].pipe.lock().unwrap();
        p.read_err = Some(io::ErrorKind::ConnectionReset);
        p.write_err = Some(io::ErrorKind::BrokenPipe);
        p.wake_read();
        p.wake_write();
    }
    pub fn set_window(&mut self, c: usize, w: Option<usize>) {
        let mut p = self.conns[c].pipe.lock().unwrap();
        p.window = w;
        p.wake_write();
    }
    pub fn set_chunks(&mut self, c: usize, r: Option<usize>, w: Option<usize>) {
        let mut p = self.conns[c].pipe.lock().unwrap();
        p.read_chunk = r;
        p.write_chunk = w;
    }
    pub fn block_flush(&mut self, c: usize, b: bool) {
        let mut p = self.conns[c].pipe.lock().unwrap();
        p.flush_blocked = b;
        if !b {
            p.wake_write();
        }
    }
    pub fn alive(&self, c: usize) -> bool {
        self.conns[c].fut.is_some()
    }
    pub fn runnable(&self) -> Vec<usize> {
        (0..self.conns.len())
            .filter(|&i| self.conns[i].fut.is_some() && self.conns[i].flag.0.load(Ordering::SeqCst))
            .collect()
    }
    /// Poll one connection task once.
    pub fn poll_conn(&mut self, c: usize) {
        self.steps += 1;
        let _g = self.rt.as_ref().unwrap().enter();
        let conn = &mut self.conns[c];
        conn.flag.0.store(false, Ordering::SeqCst);
        conn.polls += 1;
        let waker = Waker::from(conn.flag.clone());
        let mut cx = Context::from_waker(&waker);
        if let Some(f) = conn.fut.as_mut() {
            if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                conn.result = Some(r.map_err(|e| e.kind()));
                conn.fut = None;
            }
        }
    }
    /// Lets the tasks of these connections run on threads of their own, which
    /// take turns at every lock and channel operation as the chooser decides,
    /// until each waits for something else. With `tasks`, a further thread
    /// runs the tasks the broker spawned. Returns what went wrong.
    pub fn race(&mut self, who: &[usize], tasks: bool, ch: &mut mc_engine::Chooser) -> Result<u64, String> {
        self.steps += 1;
        let rt = self.rt.as_ref().unwrap();
        let handle = rt.handle().clone();
        let now = clock::now_ms() + clock::base_ms();
        let shared = Arc::new(Mutex::new(std::mem::replace(ch, mc_engine::Chooser::new(vec![]))));
        let inner = shared.clone();
        let group = mc_sched::Group::new(
            who.len() + tasks as usize,
            Box::new(move |n, what| {
                let mut c = inner.lock().unwrap_or_else(|e| e.into_inner());
                let k = c.choose(n);
                if k > 0 {
                    c.note(what(k));
                }
                k
            }),
        );
        let mut conns: Vec<(usize, &mut Conn)> = self.conns.iter_mut().enumerate().filter(|(i, _)| who.contains(i)).collect();
        conns.sort_by_key(|(i, _)| who.iter().position(|w| w == i));
        let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
        {
            let mut threads: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
            let errors = &errors;
            for (t, (id, conn)) in conns.into_iter().enumerate() {
                let (group, handle) = (group.clone(), handle.clone());
                threads.push(Box::new(move || {
                    clock::enable();
                    clock::set_ms(now);
                    let _g = handle.enter();
                    let r = group.run(t, || {
                        mc_engine::guarded(|| {
                            let waker = Waker::from(conn.flag.clone());
                            let mut cx = Context::from_waker(&waker);
                            let mut polls = 0;
                            while conn.fut.is_some() {
                                if !conn.flag.0.swap(false, Ordering::SeqCst) {
                                    if !mc_sched::idle(&conn.flag.0) {
                                        break;
                                    }
                                    continue;
                                }
                                polls += 1;
                                assert!(polls < 10_000, "the connection does not come to rest");
                                if let Poll::Ready(r) = conn.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
                                    conn.result = Some(r.map_err(|e| e.kind()));
                                    conn.fut = None;
                                }
                            }
                        })
                    });
                    let r = r.map_err(|e| {
                        // what a runtime does with a task that panicked
                        let _ = mc_engine::guarded(|| conn.fut = None);
                        conn.result = Some(Err(io::ErrorKind::Other));
                        format!("connection {id}: {e}")
                    });
                    clock::disable();
                    errors.lock().unwrap().extend(r.err());
                }));
            }
            if tasks {
                let group = group.clone();
                let t = who.len();
                threads.push(Box::new(move || {
                    clock::enable();
                    clock::set_ms(now);
                    let r = group.run(t, || {
                        mc_engine::guarded(|| {
                            rt.block_on(async {
                                for _ in 0..6 {
                                    tokio::task::yield_now().await;
                                }
                            })
                        })
                    });
                    clock::disable();
                    errors.lock().unwrap().extend(r.err().map(|e| format!("broker tasks: {e}")));
                }));
            }
            mc_sched::on_threads(threads, || group.start());
        }
        let errors = errors.into_inner().unwrap();
        let (choose, deadlock, points) = group.finish();
        drop(choose);
        drop(group);
        *ch = Arc::into_inner(shared).expect("chooser still shared").into_inner().unwrap_or_else(|e| e.into_inner());
        match errors.first() {
            Some(e) => Err(e.clone()),
            None if deadlock => Err("deadlock".into()),
            None => Ok(points),
        }
    }
    /// Let the tasks the broker spawned run.
    pub fn pump(&mut self) {
        let rt = self.rt.as_ref().unwrap();
        rt.block_on(async {
            for _ in 0..6 {
                tokio::task::yield_now().await;
            }
        });
    }
    /// The transports become ready again. False if none was blocked.
    pub fn release(&mut self) -> bool {
        let mut any = false;
        for c in &mut self.conns {
            let mut p = c.pipe.lock().unwrap();
            if p.blocked_read {
                p.blocked_read = false;
                p.wake_read();
                any = true;
            }
            if p.blocked_write || p.blocked_flush {
                p.blocked_write = false;
                p.blocked_flush = false;
                p.wake_write();
                any = true;
            }
        }
        any
    }
    /// Run until nothing is runnable and no transport is blocked; which
    /// runnable task (or the broker's own tasks) goes next is a choice.
    pub fn quiesce_chosen(&mut self) {
        let mut guard = 0u32;
        loop {
            guard += 1;
            assert!(guard < 20_000, "broker did not become quiescent");
            let r = self.runnable();
            if r.is_empty() {
                self.pump();
                if self.runnable().is_empty() && !self.politeness() && !self.release() {
                    return;
                }
                continue;
            }
            let k = choose(r.len() + 1, |k| if k == r.len() { "broker tasks run".into() } else { format!("conn {} runs first", r[k]) });
            if k == r.len() {
                self.pump();
            } else {
                self.poll_conn(r[k]);
            }
        }
    }
    /// Run everything that is runnable, connections in index order.
    pub fn quiesce(&mut self) {
        let mut guard = 0u32;
        loop {
            self.pump();
            let r = self.runnable();
            if r.is_empty() {
                // closing our side may make connections runnable again
                if self.politeness() {
                    continue;
                }
                break;
            }
            for c in r {
                self.poll_conn(c);
            }
            guard += 1;
            assert!(guard < 20_000, "broker did not become quiescent");
        }
    }
    /// Well-behaved peers close when the server closed.
    pub fn politeness(&mut self) -> bool {
        let mut any = false;
        for c in &mut self.conns {
            if c.polite && c.fut.is_some() {
                let mut p = c.pipe.lock().unwrap();
                if p.shutdown && !p.eof {
                    p.eof = true;
                    p.wake_read();
                    any = true;
                }
            }
        }
        any
    }
    pub fn advance(&mut self, ms: u64) {
        let mut left = ms;
        while left > 0 {
            let s = left.min(500);
            left -= s;
            clock::advance_ms(s);
            let rt = self.rt.as_ref().unwrap();
            rt.block_on(async { tokio::time::advance(Duration::from_millis(s)).await });
            self.quiesce();
        }
    }
    /// Advance without polling connections (timers only).
    pub fn advance_raw(&mut self, ms: u64) {
        clock::advance_ms(ms);
        let rt = self.rt.as_ref().unwrap();
        rt.block_on(async { tokio::time::advance(Duration::from_millis(ms)).await });
        self.pump();
    }
    pub fn panicked(&self) -> Option<String> {
        if mc_engine::panic_count() != self.panics0 {
            Some(mc_engine::last_panic())
        } else {
            None
        }
    }

    /// Decode what arrived on connection `c` since the last call.
    pub fn recv(&mut self, c: usize) -> Vec<Rx> {
        self.pull(c);
        let conn = &mut self.conns[c];
        let mut out = Vec::new();
        let (data, shut) = {
            let p = conn.pipe.lock().unwrap();
            let plain = conn.codec.as_ref().map(|k| &k.plain).unwrap_or(&p.outbound);
            (plain[conn.parsed..].to_vec(), p.shutdown)
        };
        let mut off = 0;
        loop {
            let rest = &data[off..];
            if rest.is_empty() {
                break;
            }
            let total = match mqtt_proto::decode_raw_header(rest) {
                Ok(Some((_, _, total))) => total,
                Ok(None) => break,
                Err(e) => {
                    conn.wire_errors.push(format!("undecodable header: {e:?}"));
                    off = data.len();
                    break;
                }
            };
            if rest.len() < total {
                break;
            }
            let frame = &rest[..total];
            off += total;
            if total > conn.max_size {
                conn.wire_errors.push(format!("packet of {total} bytes exceeds the client's maximum of {}", conn.max_size));
            }
            let r = if conn.ver.is_v5() { Self::rx_v5(conn, frame) } else { Self::rx_v3(conn, frame) };
            match r {
                Ok(rx) => out.push(rx),
                Err(e) => conn.wire_errors.push(e),
            }
        }
        conn.parsed += off;
        let gone = conn.fut.is_none() || shut;
        let werr = conn.pipe.lock().unwrap().write_err.is_some();
        if gone && off < data.len() && !conn.closed_reported && !werr && conn.result == Some(Ok(())) {
            conn.wire_errors.push("stream ends inside a packet".into());
        }
        if gone && !conn.closed_reported {
            conn.closed_reported = true;
            out.push(Rx::Closed);
        }
        out
    }
    fn rx_v3(conn: &mut Conn, frame: &[u8]) -> Result<Rx, String> {
        use v3::Packet as P;
        let p = match P::decode(frame) {
            Ok(Some(p)) => p,
            e => return Err(format!("undecodable packet from server: {e:?} {frame:02x?}")),
        };
        Ok(match p {
            P::Connack(a) => Rx::Connack { sp: a.session_present, code: a.code as u8 },
            P::Publish(p) => {
                let (qos, pid) = qp(p.qos_pid);
                note_pub(conn, qos, pid);
                Rx::Pub(RxPub {
                    topic: p.topic_name.to_string(),
                    payload: String::from_utf8_lossy(&p.payload).to_string(),
                    qos,
                    dup: p.dup,
                    retain: p.retain,
                    pid,
                    ids: vec![],
                    expiry: None,
                    rest: String::new(),
                })
            }
            P::Puback(pid) => Rx::Puback(pid.value(), 0),
            P::Pubrec(pid) => Rx::Pubrec(pid.value(), 0),
            P::Pubrel(pid) => {
                note_rel(conn, pid.value());
                Rx::Pubrel(pid.value(), 0)
            }
            P::Pubcomp(pid) => Rx::Pubcomp(pid.value(), 0),
            P::Suback(s) => Rx::Suback(s.pid.value(), s.topics.iter().map(|c| *c as u8).collect()),
            P::Unsuback(pid) => Rx::Unsuback(pid.value(), vec![]),
            P::Pingresp => Rx::Pingresp,
            other => return Err(format!("server sent a client-only packet: {other:?}")),
        })
    }
    fn rx_v5(conn: &mut Conn, frame: &[u8]) -> Result<Rx, String> {
        use v5::Packet as P;
        let p = match P::decode(frame) {
            Ok(Some(p)) => p,
            e => return Err(format!("undecodable packet from server: {e:?} {frame:02x?}")),
        };
        Ok(match p {
            P::Connack(a) => {
                conn.last_connack = Some(a.properties.clone());
                Rx::Connack { sp: a.session_present, code: a.reason_code as u8 }
            }
            P::Publish(p) => {
                let (qos, pid) = qp(p.qos_pid);
                note_pub(conn, qos, pid);
                let mut topic = p.topic_name.to_string();
                let mut pr = p.properties.clone();
                if let Some(a) = pr.topic_alias.take() {
                    if a == 0 || a > conn.alias_max {
                        conn.wire_errors.push(format!("topic alias {a} outside 1..={}", conn.alias_max));
                    }
                    if topic.is_empty() {
                        match conn.aliases.get(&a) {
                            Some(t) => topic = t.clone(),
                            None => conn.wire_errors.push(format!("topic alias {a} was never defined")),
                        }
                    } else {
                        conn.aliases.insert(a, topic.clone());
                    }
                } else if topic.is_empty() {
                    conn.wire_errors.push("empty topic without alias".into());
                }
                let mut ids: Vec<u32> = pr.subscription_ids.drain(..).map(|i| i.value()).collect();
                ids.sort();
                let expiry = pr.message_expiry_interval.take();
                let rest = render_props(&pr);
                Rx::Pub(RxPub {
                    topic,
                    payload: String::from_utf8_lossy(&p.payload).to_string(),
                    qos,
                    dup: p.dup,
                    retain: p.retain,
                    pid,
                    ids,
                    expiry,
                    rest,
                })
            }
            P::Puback(a) => Rx::Puback(a.pid.value(), a.reason_code as u8),
            P::Pubrec(a) => Rx::Pubrec(a.pid.value(), a.reason_code as u8),
            P::Pubrel(a) => {
                note_rel(conn, a.pid.value());
                Rx::Pubrel(a.pid.value(), a.reason_code as u8)
            }
            P::Pubcomp(a) => Rx::Pubcomp(a.pid.value(), a.reason_code as u8),
            P::Suback(s) => Rx::Suback(s.pid.value(), s.topics.iter().map(|c| *c as u8).collect()),
            P::Unsuback(s) => Rx::Unsuback(s.pid.value(), s.topics.iter().map(|c| *c as u8).collect()),
            P::Pingresp => Rx::Pingresp,
            P::Disconnect(d) => Rx::Disconnect(d.reason_code as u8),
            P::Auth(a) => {
                conn.last_auth = Some(a.properties.clone());
                Rx::Auth(a.reason_code as u8)
            }
            other => return Err(format!("server sent a client-only packet: {other:?}")),
        })
    }
}

pub fn render_props(pr: &v5::PublishProperties) -> String {
    let mut s = String::new();
    if let Some(b) = pr.payload_is_utf8 {
        s += &format!("utf8={b};");
    }
    if let Some(t) = &pr.response_topic {
        s += &format!("resp={t};");
    }
    if let Some(c) = &pr.correlation_data {
        s += &format!("corr={c:?};");
    }
    if let Some(c) = &pr.content_type {
        s += &format!("ct={c};");
    }
    for u in &pr.user_properties {
        s += &format!("user={u:?};");
    }
    s
}

fn qp(q: mqtt_proto::QosPid) -> (u8, u16) {
    (q.qos() as u8, q.pid().map(|p| p.value()).unwrap_or(0))
}
fn note_pub(conn: &mut Conn, qos: u8, pid: u16) {
    if qos == 0 {
        return;
    }
    let st = if qos == 1 { Stage::Pub1 } else { Stage::Pub2 };
    if !conn.unacked.iter().any(|u| u.0 == pid) {
        conn.unacked.push((pid, st));
    }
}
fn note_rel(conn: &mut Conn, pid: u16) {
    if let Some(u) = conn.unacked.iter_mut().find(|u| u.0 == pid) {
        u.1 = Stage::Rel;
    } else {
        conn.unacked.push((pid, Stage::Rel));
    }
}
