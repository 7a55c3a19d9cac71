//! Simulated TCP: latency, segmentation, coalescing, windows, FIN, RST, half-open peers, stalls, accept and
//! connect faults.
use crate::sim::{self, Ev, State};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt;
use std::future::poll_fn;
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{ready, Context, Poll, Waker};
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

enum SegKind {
    Data(Vec<u8>),
    Fin,
    Rst,
}
struct Seg {
    at: u64,
    kind: SegKind,
}

struct Pipe {
    inflight: VecDeque<Seg>,
    inflight_bytes: usize,
    recvbuf: VecDeque<u8>,
    cap: usize,
    fin_recv: bool,
    last_at: u64,
    stalled_until: u64,
    /// nothing sent from now on arrives (peer host or path gone); sender is not told
    dead: bool,
    rst_sent: bool,
    read_waker: Option<Waker>,
    write_waker: Option<Waker>,
    total: u64,
    delivered: u64,
    zero_reads: u64,
}
impl Pipe {
    fn new(cap: usize) -> Self {
        Pipe {
            inflight: VecDeque::new(),
            inflight_bytes: 0,
            recvbuf: VecDeque::new(),
            cap,
            fin_recv: false,
            last_at: 0,
            stalled_until: 0,
            dead: false,
            rst_sent: false,
            read_waker: None,
            write_waker: None,
            total: 0,
            delivered: 0,
            zero_reads: 0,
        }
    }
}
struct End {
    addr: SocketAddr,
    open: bool,
    node: u32,
    err: Option<io::ErrorKind>,
    reset: bool,
    wr_shut: bool,
    linger0: bool,
}
struct Conn {
    ends: [End; 2],
    pipes: [Pipe; 2],
    established: bool,
    refused: bool,
    connect_waker: Option<Waker>,
    connect_node: u32,
    connect_dead: bool,
    listener: SocketAddr,
}
struct Listener {
    queue: VecDeque<u64>,
    wakers: Vec<Waker>,
    errs: VecDeque<i32>,
    /// until when (ns) it fails, and how
    fails: (u64, i32),
    node: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ConnectMode {
    Normal,
    Refuse,
    BlackHole,
}
#[derive(Default)]
pub struct Net {
    listeners: HashMap<SocketAddr, Listener>,
    conns: BTreeMap<u64, Conn>,
    next_conn: u64,
    next_port: u16,
    modes: HashMap<SocketAddr, ConnectMode>,
    pub(crate) polls: HashMap<u32, u64>,
}
pub(crate) enum NetEv {
    Deliver(u64, usize),
    Arrive(u64),
}

fn delay(s: &mut State) -> u64 {
    let j = s.cfg.jitter_us;
    let mut d = s.cfg.latency_us as u64;
    if j > 0 {
        let p = s.cfg.jitter_p;
        d += s.decide(j + 1, p) as u64;
    }
    d * 1000
}

fn push_seg(s: &mut State, id: u64, dir: usize, kind: SegKind) {
    let d = delay(s);
    let now = s.now;
    if let Some(c) = s.net.conns.get_mut(&id) {
        let p = &mut c.pipes[dir];
        if matches!(kind, SegKind::Rst) {
            if p.rst_sent {
                return;
            }
            p.rst_sent = true;
        }
        let at = (now + d).max(p.last_at);
        p.last_at = at;
        if let SegKind::Data(v) = &kind {
            p.inflight_bytes += v.len();
        }
        p.inflight.push_back(Seg { at, kind });
        s.schedule(at, Ev::Net(NetEv::Deliver(id, dir)));
    }
}

pub(crate) fn fire(s: &mut State, e: NetEv) {
    match e {
        NetEv::Arrive(id) => {
            let (listener, dead) = match s.net.conns.get(&id) {
                Some(c) => (c.listener, c.connect_dead),
                None => return,
            };
            if dead {
                return;
            }
            let mode = s.net.modes.get(&listener).copied().unwrap_or(ConnectMode::Normal);
            let found = if mode == ConnectMode::Normal { find_listener(&mut s.net, listener) } else { None };
            let c = s.net.conns.get_mut(&id).unwrap();
            match found {
                Some(l) => {
                    c.established = true;
                    let n = {
                        let l = s.net.listeners.get_mut(&l).unwrap();
                        l.queue.push_back(id);
                        for w in l.wakers.drain(..) {
                            w.wake();
                        }
                        l.node
                    };
                    let c = s.net.conns.get_mut(&id).unwrap();
                    c.ends[1].node = n;
                    if let Some(w) = c.connect_waker.take() {
                        w.wake();
                    }
                }
                None => {
                    if mode == ConnectMode::BlackHole {
                        c.connect_dead = true;
                        s.count("connect_blackhole");
                        return;
                    }
                    c.refused = true;
                    if let Some(w) = c.connect_waker.take() {
                        w.wake();
                    }
                    s.count("connect_refused");
                }
            }
        }
        NetEv::Deliver(id, dir) => deliver(s, id, dir),
    }
}

fn find_listener(n: &mut Net, a: SocketAddr) -> Option<SocketAddr> {
    if n.listeners.contains_key(&a) {
        return Some(a);
    }
    let any = SocketAddr::new(IpAddr::V4(Ipv4Addr::UNSPECIFIED), a.port());
    n.listeners.contains_key(&any).then_some(any)
}

fn deliver(s: &mut State, id: u64, dir: usize) {
    let now = s.now;
    let mut send_rst = false;
    let mut again = None;
    let mut h = 0u64;
    if let Some(c) = s.net.conns.get_mut(&id) {
        let rx = 1 - dir;
        let (ends, pipes) = (&mut c.ends, &mut c.pipes);
        let (p, other) = {
            let (a, b) = pipes.split_at_mut(1);
            if dir == 0 {
                (&mut a[0], &mut b[0])
            } else {
                (&mut b[0], &mut a[0])
            }
        };
        if p.stalled_until > now {
            again = Some(p.stalled_until);
        } else {
            let mut wake = false;
            while let Some(f) = p.inflight.front() {
                if f.at > now {
                    break;
                }
                if p.dead {
                    // lost: stays accounted for in the sender's window
                    p.inflight.pop_front();
                    continue;
                }
                let seg = p.inflight.pop_front().unwrap();
                match seg.kind {
                    SegKind::Data(v) => {
                        p.inflight_bytes -= v.len();
                        if !ends[rx].open {
                            send_rst = true;
                        } else if ends[rx].reset {
                        } else {
                            p.delivered += v.len() as u64;
                            h = h.wrapping_mul(31).wrapping_add(v.len() as u64 + id * 131);
                            p.recvbuf.extend(v);
                            wake = true;
                        }
                    }
                    SegKind::Fin => {
                        p.fin_recv = true;
                        wake = true;
                    }
                    SegKind::Rst => {
                        ends[rx].err = Some(io::ErrorKind::ConnectionReset);
                        ends[rx].reset = true;
                        other.inflight.retain(|s| matches!(s.kind, SegKind::Rst));
                        other.inflight_bytes = 0;
                        if let Some(w) = other.write_waker.take() {
                            w.wake();
                        }
                        wake = true;
                    }
                }
            }
            if wake {
                if let Some(w) = p.read_waker.take() {
                    w.wake();
                }
            }
        }
    }
    if h != 0 {
        s.mix(h);
    }
    if let Some(t) = again {
        s.schedule(t, Ev::Net(NetEv::Deliver(id, dir)));
    }
    if send_rst {
        push_seg(s, id, 1 - dir, SegKind::Rst);
    }
}

fn close_end(s: &mut State, id: u64, side: usize, force_rst: bool) {
    let Some(c) = s.net.conns.get_mut(&id) else { return };
    if !c.ends[side].open {
        return;
    }
    c.ends[side].open = false;
    let unread = !c.pipes[1 - side].recvbuf.is_empty();
    let reset = c.ends[side].reset;
    let rst = force_rst || unread || c.ends[side].linger0;
    let shut = c.ends[side].wr_shut;
    c.ends[side].wr_shut = true;
    c.pipes[1 - side].recvbuf.clear();
    if let Some(w) = c.pipes[1 - side].write_waker.take() {
        w.wake();
    }
    if reset {
        return;
    }
    if rst {
        push_seg(s, id, side, SegKind::Rst);
    } else if !shut {
        push_seg(s, id, side, SegKind::Fin);
    }
}

fn err(k: io::ErrorKind) -> io::Error {
    // carry an OS error code, like the real thing
    let code = match k {
        io::ErrorKind::ConnectionReset => 104,
        io::ErrorKind::BrokenPipe => 32,
        io::ErrorKind::ConnectionRefused => 111,
        io::ErrorKind::AddrInUse => 98,
        io::ErrorKind::NotConnected => 107,
        _ => return io::Error::from(k),
    };
    io::Error::from_raw_os_error(code)
}

#[derive(Debug)]
struct Handle {
    id: u64,
    side: usize,
}
impl Drop for Handle {
    fn drop(&mut self) {
        let (id, side) = (self.id, self.side);
        let _ = sim::try_with(|s| close_end(s, id, side, false));
    }
}
impl Handle {
    fn read(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let coop = ready!(crate::task::coop::poll_proceed(cx));
        let (id, side) = (self.id, self.side);
        let r = sim::with(|s| {
            let split_p = s.cfg.split_p;
            let avail = match s.net.conns.get(&id) {
                Some(c) => c.pipes[1 - side].recvbuf.len(),
                None => return Poll::Ready(Err(err(io::ErrorKind::NotConnected))),
            };
            if buf.remaining() == 0 {
                return Poll::Ready(Ok(()));
            }
            if avail > 0 {
                let mut n = avail.min(buf.remaining());
                if n > 1 {
                    let k = s.decide(n as u32, split_p) as usize;
                    if k > 0 {
                        n = k;
                        s.count("short_read");
                    }
                }
                let p = &mut s.net.conns.get_mut(&id).unwrap().pipes[1 - side];
                for _ in 0..n {
                    buf.put_slice(&[p.recvbuf.pop_front().unwrap()]);
                }
                if let Some(w) = p.write_waker.take() {
                    w.wake();
                }
                return Poll::Ready(Ok(()));
            }
            let c = s.net.conns.get_mut(&id).unwrap();
            if let Some(k) = c.ends[side].err.take() {
                s.count("read_reset");
                return Poll::Ready(Err(err(k)));
            }
            let c = s.net.conns.get_mut(&id).unwrap();
            if c.pipes[1 - side].fin_recv || c.ends[side].reset {
                c.pipes[1 - side].zero_reads += 1;
                return Poll::Ready(Ok(()));
            }
            c.pipes[1 - side].read_waker = Some(cx.waker().clone());
            Poll::Pending
        });
        if r.is_ready() {
            coop.made_progress();
        }
        r
    }
    fn write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let coop = ready!(crate::task::coop::poll_proceed(cx));
        let (id, side) = (self.id, self.side);
        let r = sim::with(|s| {
            let split_p = s.cfg.split_p;
            let Some(c) = s.net.conns.get_mut(&id) else {
                return Poll::Ready(Err(err(io::ErrorKind::NotConnected)));
            };
            if let Some(k) = c.ends[side].err.take() {
                s.count("write_reset");
                return Poll::Ready(Err(err(k)));
            }
            let c = s.net.conns.get_mut(&id).unwrap();
            if c.ends[side].wr_shut || c.ends[side].reset {
                return Poll::Ready(Err(err(io::ErrorKind::BrokenPipe)));
            }
            if data.is_empty() {
                return Poll::Ready(Ok(0));
            }
            let p = &mut c.pipes[side];
            let used = p.inflight_bytes + p.recvbuf.len();
            if used >= p.cap {
                p.write_waker = Some(cx.waker().clone());
                s.count("write_blocked");
                return Poll::Pending;
            }
            let mut n = (p.cap - used).min(data.len());
            if n < data.len() {
                s.count("short_write");
            } else if n > 1 {
                let k = s.decide(n as u32, split_p * 0.3) as usize;
                if k > 0 {
                    n = k;
                    s.count("short_write");
                }
            }
            let c = s.net.conns.get_mut(&id).unwrap();
            c.pipes[side].total += n as u64;
            // segments
            let mut rest = &data[..n];
            while !rest.is_empty() {
                let mut k = rest.len();
                if k > 1 {
                    let d = s.decide(k as u32, split_p) as usize;
                    if d > 0 {
                        k = d;
                        s.count("segmented");
                    }
                }
                push_seg(s, id, side, SegKind::Data(rest[..k].to_vec()));
                rest = &rest[k..];
            }
            Poll::Ready(Ok(n))
        });
        if r.is_ready() {
            coop.made_progress();
        }
        r
    }
    fn shutdown_wr(&self) -> io::Result<()> {
        let (id, side) = (self.id, self.side);
        sim::with(|s| {
            let Some(c) = s.net.conns.get_mut(&id) else {
                return Err(err(io::ErrorKind::NotConnected));
            };
            if c.ends[side].reset {
                return Err(err(io::ErrorKind::NotConnected));
            }
            if !c.ends[side].wr_shut {
                c.ends[side].wr_shut = true;
                push_seg(s, id, side, SegKind::Fin);
            }
            Ok(())
        })
    }
    fn addr(&self, which: usize) -> io::Result<SocketAddr> {
        let id = self.id;
        sim::with(|s| {
            s.net.conns.get(&id).map(|c| c.ends[which].addr).ok_or_else(|| err(io::ErrorKind::NotConnected))
        })
    }
    fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let (id, side) = (self.id, self.side);
        sim::with(|s| {
            let Some(c) = s.net.conns.get_mut(&id) else { return Poll::Ready(Ok(())) };
            let r = c.ends[side].err.is_some() || c.ends[side].reset;
            let p = &mut c.pipes[1 - side];
            if !p.recvbuf.is_empty() || p.fin_recv || r {
                Poll::Ready(Ok(()))
            } else {
                p.read_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
    fn peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        ready!(self.poll_read_ready(cx))?;
        let (id, side) = (self.id, self.side);
        sim::with(|s| {
            let Some(c) = s.net.conns.get_mut(&id) else { return Poll::Ready(Ok(0)) };
            let p = &c.pipes[1 - side];
            let n = p.recvbuf.len().min(buf.remaining());
            for i in 0..n {
                buf.put_slice(&[p.recvbuf[i]]);
            }
            Poll::Ready(Ok(n))
        })
    }
}

pub struct TcpStream {
    h: Arc<Handle>,
}
impl fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpStream(sim {}:{})", self.h.id, self.h.side)
    }
}
impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let mut last = None;
        for a in addr.resolve()? {
            match Self::connect_addr(a).await {
                Ok(s) => return Ok(s),
                Err(e) => last = Some(e),
            }
        }
        Err(last.unwrap_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")))
    }
    async fn connect_addr(a: SocketAddr) -> io::Result<TcpStream> {
        let id = sim::with(|s| {
            s.net.next_conn += 1;
            let id = s.net.next_conn;
            s.net.next_port = s.net.next_port.wrapping_add(1);
            let local = SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 32768 + s.net.next_port % 28000);
            let node = s.cur_node();
            let w = s.cfg.window;
            let end = |addr, node| End { addr, open: true, node, err: None, reset: false, wr_shut: false, linger0: false };
            s.net.conns.insert(
                id,
                Conn {
                    ends: [end(local, node), end(a, u32::MAX)],
                    pipes: [Pipe::new(w), Pipe::new(w)],
                    established: false,
                    refused: false,
                    connect_waker: None,
                    connect_node: node,
                    connect_dead: false,
                    listener: a,
                },
            );
            let d = delay(s);
            let at = s.now + d;
            s.schedule(at, Ev::Net(NetEv::Arrive(id)));
            id
        });
        let h = Handle { id, side: 0 };
        poll_fn(|cx| {
            sim::with(|s| {
                let c = s.net.conns.get_mut(&id).unwrap();
                if c.refused {
                    return Poll::Ready(Err(err(io::ErrorKind::ConnectionRefused)));
                }
                if c.established {
                    return Poll::Ready(Ok(()));
                }
                c.connect_waker = Some(cx.waker().clone());
                Poll::Pending
            })
        })
        .await?;
        Ok(TcpStream { h: Arc::new(h) })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.h.addr(self.h.side)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.h.addr(1 - self.h.side)
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        let (id, side) = (self.h.id, self.h.side);
        Ok(sim::with(|s| s.net.conns.get_mut(&id).and_then(|c| c.ends[side].err.take()).map(err)))
    }
    pub fn set_linger(&self, d: Option<std::time::Duration>) -> io::Result<()> {
        let (id, side) = (self.h.id, self.h.side);
        sim::with(|s| {
            if let Some(c) = s.net.conns.get_mut(&id) {
                c.ends[side].linger0 = d == Some(std::time::Duration::ZERO);
            }
        });
        Ok(())
    }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> {
        Ok(None)
    }
    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| self.h.poll_read_ready(cx)).await
    }
    pub async fn writable(&self) -> io::Result<()> {
        let (id, side) = (self.h.id, self.h.side);
        poll_fn(|cx| {
            sim::with(|s| {
                let Some(c) = s.net.conns.get_mut(&id) else { return Poll::Ready(Ok(())) };
                let p = &mut c.pipes[side];
                if c.ends[side].err.is_some()
                    || c.ends[side].reset
                    || c.ends[side].wr_shut
                    || p.inflight_bytes + p.recvbuf.len() < p.cap
                {
                    Poll::Ready(Ok(()))
                } else {
                    p.write_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            })
        })
        .await
    }
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut b = ReadBuf::new(buf);
        let mut cx = Context::from_waker(Waker::noop());
        match self.h.read(&mut cx, &mut b) {
            Poll::Ready(Ok(())) => Ok(b.filled().len()),
            Poll::Ready(Err(e)) => Err(e),
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        let mut cx = Context::from_waker(Waker::noop());
        match self.h.write(&mut cx, buf) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut b = ReadBuf::new(buf);
        poll_fn(|cx| self.h.peek(cx, &mut b)).await
    }
    pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        self.h.peek(cx, buf)
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        (tcp::OwnedReadHalf { h: self.h.clone() }, tcp::OwnedWriteHalf { h: self.h.clone(), shut: true })
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf(self), tcp::WriteHalf(self))
    }
    /// Simulator API: identifier of the connection.
    pub fn sim_id(&self) -> u64 {
        self.h.id
    }
    pub fn sim_side(&self) -> usize {
        self.h.side
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.h.read(cx, buf)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.h.write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(self.h.shutdown_wr())
    }
}

pub mod tcp {
    use super::*;
    #[derive(Debug)]
    pub struct OwnedReadHalf {
        pub(super) h: Arc<Handle>,
    }
    #[derive(Debug)]
    pub struct OwnedWriteHalf {
        pub(super) h: Arc<Handle>,
        pub(super) shut: bool,
    }
    #[derive(Debug)]
    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
    impl fmt::Display for ReuniteError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("tried to reunite halves that are not from the same socket")
        }
    }
    impl std::error::Error for ReuniteError {}
    impl OwnedReadHalf {
        pub fn reunite(self, other: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
            if Arc::ptr_eq(&self.h, &other.h) {
                let mut other = other;
                other.shut = false;
                Ok(TcpStream { h: self.h.clone() })
            } else {
                Err(ReuniteError(self, other))
            }
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            self.h.addr(1 - self.h.side)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            self.h.addr(self.h.side)
        }
    }
    impl OwnedWriteHalf {
        pub fn forget(mut self) {
            self.shut = false;
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            self.h.addr(1 - self.h.side)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            self.h.addr(self.h.side)
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            if self.shut && sim::active() {
                let _ = self.h.shutdown_wr();
            }
        }
    }
    impl AsyncRead for OwnedReadHalf {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.h.read(cx, buf)
        }
    }
    impl AsyncRead for ReadHalf<'_> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.0.h.read(cx, buf)
        }
    }
    macro_rules! wr {
        ($t:ty, $($f:tt)+) => {
            impl AsyncWrite for $t {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                    self.$($f)+.write(cx, buf)
                }
                fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    Poll::Ready(Ok(()))
                }
                fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    Poll::Ready(self.$($f)+.shutdown_wr())
                }
            }
        };
    }
    wr!(OwnedWriteHalf, h);
    wr!(WriteHalf<'_>, 0.h);
}

pub struct TcpListener {
    addr: SocketAddr,
}
impl fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpListener(sim {})", self.addr)
    }
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let mut last = None;
        for a in addr.resolve()? {
            match Self::bind_addr(a) {
                Ok(l) => return Ok(l),
                Err(e) => last = Some(e),
            }
        }
        Err(last.unwrap_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")))
    }
    fn bind_addr(mut a: SocketAddr) -> io::Result<TcpListener> {
        sim::with(|s| {
            if a.port() == 0 {
                s.net.next_port = s.net.next_port.wrapping_add(1);
                a.set_port(61000 + s.net.next_port % 4000);
            }
            if s.net.listeners.contains_key(&a) {
                return Err(err(io::ErrorKind::AddrInUse));
            }
            let node = s.cur_node();
            s.net.listeners.insert(
                a,
                Listener { queue: VecDeque::new(), wakers: vec![], errs: VecDeque::new(), fails: (0, 0), node },
            );
            Ok(TcpListener { addr: a })
        })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let coop = ready!(crate::task::coop::poll_proceed(cx));
        let addr = self.addr;
        let r = sim::with(|s| {
            let Some(l) = s.net.listeners.get_mut(&addr) else {
                return Poll::Ready(Err(err(io::ErrorKind::NotConnected)));
            };
            if let Some(code) = l.errs.pop_front() {
                s.count("accept_error");
                return Poll::Ready(Err(io::Error::from_raw_os_error(code)));
            }
            // as with too many open files: it fails as long as there is something to accept
            if s.now < l.fails.0 && !l.queue.is_empty() {
                let code = l.fails.1;
                s.count("accept_error");
                return Poll::Ready(Err(io::Error::from_raw_os_error(code)));
            }
            match l.queue.pop_front() {
                Some(id) => {
                    let node = s.cur_node();
                    let c = s.net.conns.get_mut(&id).unwrap();
                    c.ends[1].node = node;
                    let peer = c.ends[0].addr;
                    Poll::Ready(Ok((TcpStream { h: Arc::new(Handle { id, side: 1 }) }, peer)))
                }
                None => {
                    l.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        });
        if r.is_ready() {
            coop.made_progress();
        }
        r
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let a = self.addr;
        let _ = sim::try_with(|s| {
            if let Some(l) = s.net.listeners.remove(&a) {
                for id in l.queue {
                    close_end(s, id, 1, true);
                }
            }
        });
    }
}

/// Minimal socket builder.
#[derive(Debug)]
pub struct TcpSocket {
    bind: Option<SocketAddr>,
}
impl TcpSocket {
    pub fn new_v4() -> io::Result<Self> {
        Ok(TcpSocket { bind: None })
    }
    pub fn new_v6() -> io::Result<Self> {
        Ok(TcpSocket { bind: None })
    }
    pub fn set_reuseaddr(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_keepalive(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn bind(&self, _a: SocketAddr) -> io::Result<()> {
        Ok(())
    }
    pub fn listen(self, _backlog: u32) -> io::Result<TcpListener> {
        TcpListener::bind_addr(self.bind.unwrap_or_else(|| SocketAddr::from(([127, 0, 0, 1], 0))))
    }
    pub async fn connect(self, a: SocketAddr) -> io::Result<TcpStream> {
        TcpStream::connect_addr(a).await
    }
}

pub trait ToSocketAddrs {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>>;
}
impl ToSocketAddrs for SocketAddr {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![*self])
    }
}
impl ToSocketAddrs for std::net::SocketAddrV4 {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![(*self).into()])
    }
}
impl ToSocketAddrs for [SocketAddr] {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(self.to_vec())
    }
}
impl ToSocketAddrs for Vec<SocketAddr> {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(self.clone())
    }
}
impl ToSocketAddrs for (IpAddr, u16) {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![SocketAddr::new(self.0, self.1)])
    }
}
impl ToSocketAddrs for (Ipv4Addr, u16) {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![SocketAddr::from((self.0, self.1))])
    }
}
impl ToSocketAddrs for (&str, u16) {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        if let Ok(ip) = self.0.parse::<IpAddr>() {
            return Ok(vec![SocketAddr::new(ip, self.1)]);
        }
        if self.0 == "localhost" || self.0.ends_with(".sim") {
            return Ok(vec![SocketAddr::from(([127, 0, 0, 1], self.1))]);
        }
        Err(io::Error::new(io::ErrorKind::NotFound, "sim: unknown host"))
    }
}
impl ToSocketAddrs for (String, u16) {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        (self.0.as_str(), self.1).resolve()
    }
}
impl ToSocketAddrs for str {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        if let Ok(a) = self.parse() {
            return Ok(vec![a]);
        }
        let (h, p) = self
            .rsplit_once(':')
            .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "invalid socket address"))?;
        let p: u16 = p.parse().map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "invalid port value"))?;
        (h, p).resolve()
    }
}
impl ToSocketAddrs for String {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        self.as_str().resolve()
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        (**self).resolve()
    }
}
pub async fn lookup_host<T: ToSocketAddrs>(h: T) -> io::Result<std::vec::IntoIter<SocketAddr>> {
    Ok(h.resolve()?.into_iter())
}

/// Fault injection and inspection, for harness code.
pub mod ctl {
    use super::*;
    pub use super::ConnectMode;

    /// RST from one end; its stream handle may still exist.
    pub fn rst(id: u64, side: usize) {
        sim::with(|s| {
            s.count("fault_rst");
            close_end(s, id, side, true)
        });
    }
    /// The host of one end dies: the last `lose` bytes still in flight from it are lost, then RST (`rst`) or silence.
    pub fn crash_end(id: u64, side: usize, lose: usize, rst: bool) {
        sim::with(|s| {
            s.count(if rst { "fault_crash_rst" } else { "fault_half_open" });
            let Some(c) = s.net.conns.get_mut(&id) else { return };
            let p = &mut c.pipes[side];
            let mut lose = lose;
            while lose > 0 {
                match p.inflight.back_mut() {
                    Some(Seg { kind: SegKind::Data(v), .. }) => {
                        if v.len() > lose {
                            let k = v.len() - lose;
                            v.truncate(k);
                            p.inflight_bytes -= lose;
                            lose = 0;
                        } else {
                            lose -= v.len();
                            p.inflight_bytes -= v.len();
                            p.inflight.pop_back();
                        }
                    }
                    _ => break,
                }
            }
            if rst {
                close_end(s, id, side, true);
            } else {
                c.pipes[0].dead = true;
                c.pipes[1].dead = true;
                // what is already in flight still arrives
                let now = s.now;
                for dir in 0..2 {
                    let p = &mut s.net.conns.get_mut(&id).unwrap().pipes[dir];
                    if dir == side {
                        // deliver immediately what was on the wire
                        let mut v = vec![];
                        while let Some(seg) = p.inflight.pop_front() {
                            if let SegKind::Data(d) = seg.kind {
                                p.inflight_bytes -= d.len();
                                v.extend(d);
                            }
                        }
                        p.recvbuf.extend(v);
                        if let Some(w) = p.read_waker.take() {
                            w.wake();
                        }
                    }
                    let _ = now;
                }
            }
        });
    }
    /// Path gone: nothing is delivered in either direction any more, nobody is told.
    pub fn blackhole(id: u64) {
        sim::with(|s| {
            s.count("fault_half_open");
            if let Some(c) = s.net.conns.get_mut(&id) {
                c.pipes[0].dead = true;
                c.pipes[1].dead = true;
            }
        });
    }
    /// Nothing written by `side` is delivered before `until` (simulated ns).
    pub fn stall(id: u64, side: usize, until: u64) {
        sim::with(|s| {
            s.count("fault_stall");
            if let Some(c) = s.net.conns.get_mut(&id) {
                c.pipes[side].stalled_until = c.pipes[side].stalled_until.max(until);
                s.schedule(until, Ev::Net(NetEv::Deliver(id, side)));
            }
        });
    }
    /// Both ends see a reset (middle box).
    pub fn reset_both(id: u64) {
        sim::with(|s| {
            s.count("fault_reset_both");
            for side in 0..2 {
                push_seg(s, id, side, SegKind::Rst);
            }
        });
    }
    /// One end gives up on a path that is gone.
    pub fn timeout_end(id: u64, side: usize) {
        sim::with(|s| {
            let Some(c) = s.net.conns.get_mut(&id) else { return };
            if c.ends[side].reset {
                return;
            }
            c.ends[side].err = Some(io::ErrorKind::ConnectionReset);
            c.ends[side].reset = true;
            if let Some(w) = c.pipes[1 - side].read_waker.take() {
                w.wake();
            }
            if let Some(w) = c.pipes[side].write_waker.take() {
                w.wake();
            }
        });
    }
    pub fn set_window(id: u64, side: usize, cap: usize) {
        sim::with(|s| {
            if let Some(c) = s.net.conns.get_mut(&id) {
                c.pipes[side].cap = cap;
                if let Some(w) = c.pipes[side].write_waker.take() {
                    w.wake();
                }
            }
        });
    }
    pub fn fail_accept(a: SocketAddr, code: i32) {
        sim::with(|s| {
            if let Some(l) = s.net.listeners.get_mut(&a) {
                l.errs.push_back(code);
                for w in l.wakers.drain(..) {
                    w.wake();
                }
            }
        });
    }
    pub fn fail_accept_until(a: SocketAddr, code: i32, until: u64) {
        sim::with(|s| {
            if let Some(l) = s.net.listeners.get_mut(&a) {
                l.fails = (until, code);
            }
        });
    }
    pub fn set_connect(a: SocketAddr, m: ConnectMode) {
        sim::with(|s| {
            s.net.modes.insert(a, m);
        });
    }
    /// Has this end been closed (handle dropped) by its owner?
    pub fn is_open(id: u64, side: usize) -> bool {
        sim::with(|s| s.net.conns.get(&id).map(|c| c.ends[side].open).unwrap_or(false))
    }
    /// Has this end at least shut down its write side (or been closed or reset)?
    pub fn write_closed(id: u64, side: usize) -> bool {
        sim::with(|s| {
            s.net
                .conns
                .get(&id)
                .map(|c| !c.ends[side].open || c.ends[side].wr_shut || c.ends[side].reset)
                .unwrap_or(true)
        })
    }
    /// Bytes accepted from `side` so far.
    pub fn written(id: u64, side: usize) -> u64 {
        sim::with(|s| s.net.conns.get(&id).map(|c| c.pipes[side].total).unwrap_or(0))
    }
    /// Bytes written by `side` that the other end has not read yet.
    pub fn pending(id: u64, side: usize) -> usize {
        sim::with(|s| {
            s.net.conns.get(&id).map(|c| c.pipes[side].inflight_bytes + c.pipes[side].recvbuf.len()).unwrap_or(0)
        })
    }
    /// Number of times a reader was told end-of-file on data written by `side`.
    pub fn zero_reads(id: u64, side: usize) -> u64 {
        sim::with(|s| s.net.conns.get(&id).map(|c| c.pipes[side].zero_reads).unwrap_or(0))
    }
    /// Connections whose `side` belongs to `node` and is open.
    pub fn open_ends(node: u32) -> Vec<(u64, usize)> {
        sim::with(|s| {
            let mut v = vec![];
            for (id, c) in &s.net.conns {
                for side in 0..2 {
                    if c.ends[side].open && c.established && c.ends[side].node == node {
                        v.push((*id, side));
                    }
                }
            }
            v
        })
    }
    pub fn last_conn() -> u64 {
        sim::with(|s| s.net.next_conn)
    }
    pub fn connect_node(id: u64) -> u32 {
        sim::with(|s| s.net.conns.get(&id).map(|c| c.connect_node).unwrap_or(0))
    }
}
