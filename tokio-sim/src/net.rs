//! UdpSocket on the simulated network.
use crate::sim::{self, net as n};
use std::future::poll_fn;
use std::io;
use std::net::SocketAddr;
use std::task::{Context, Poll};

pub trait ToSocketAddrs: std::net::ToSocketAddrs {}
impl<T: std::net::ToSocketAddrs + ?Sized> ToSocketAddrs for T {}

fn resolve<A: ToSocketAddrs>(a: A) -> io::Result<SocketAddr> {
    a.to_socket_addrs()?.next().ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "no addresses"))
}
pub async fn lookup_host<A: ToSocketAddrs>(a: A) -> io::Result<std::vec::IntoIter<SocketAddr>> {
    Ok(a.to_socket_addrs()?.collect::<Vec<_>>().into_iter())
}

#[derive(Debug)]
pub struct UdpSocket {
    id: n::SockId,
}

impl Drop for UdpSocket {
    fn drop(&mut self) {
        n::close(self.id)
    }
}

fn would_block() -> io::Error {
    io::ErrorKind::WouldBlock.into()
}

impl UdpSocket {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<UdpSocket> {
        let a = resolve(addr)?;
        Ok(UdpSocket { id: n::bind(a)? })
    }
    pub fn from_std(s: std::net::UdpSocket) -> io::Result<UdpSocket> {
        use std::os::fd::AsRawFd;
        let a = match n::std_addr(s.as_raw_fd()) {
            Some(a) => a,
            None => s.local_addr()?,
        };
        Ok(UdpSocket { id: n::bind(a)? })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        n::local(self.id)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        n::peer(self.id).ok_or_else(|| io::ErrorKind::NotConnected.into())
    }
    pub async fn connect<A: ToSocketAddrs>(&self, a: A) -> io::Result<()> {
        n::connect(self.id, resolve(a)?)
    }
    pub fn set_broadcast(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn broadcast(&self) -> io::Result<bool> {
        Ok(false)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }

    async fn write(&self, buf: &[u8], dst: Option<SocketAddr>) -> io::Result<usize> {
        poll_fn(|cx| self.poll_write(cx, buf, dst)).await
    }
    fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8], dst: Option<SocketAddr>) -> Poll<io::Result<usize>> {
        sim::preempt();
        if sim::forced_yield() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match n::poll_writable(self.id, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => Poll::Ready(n::send(self.id, buf, dst)),
        }
    }
    pub async fn send_to<A: ToSocketAddrs>(&self, buf: &[u8], target: A) -> io::Result<usize> {
        let a = resolve(target)?;
        self.write(buf, Some(a)).await
    }
    pub fn poll_send_to(&self, cx: &mut Context<'_>, buf: &[u8], target: SocketAddr) -> Poll<io::Result<usize>> {
        self.poll_write(cx, buf, Some(target))
    }
    pub fn try_send_to(&self, buf: &[u8], target: SocketAddr) -> io::Result<usize> {
        let mut cx = Context::from_waker(std::task::Waker::noop());
        match n::poll_writable(self.id, &mut cx) {
            Poll::Pending => Err(would_block()),
            Poll::Ready(()) => n::send(self.id, buf, Some(target)),
        }
    }
    pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
        self.write(buf, None).await
    }
    pub fn try_send(&self, buf: &[u8]) -> io::Result<usize> {
        let mut cx = Context::from_waker(std::task::Waker::noop());
        match n::poll_writable(self.id, &mut cx) {
            Poll::Pending => Err(would_block()),
            Poll::Ready(()) => n::send(self.id, buf, None),
        }
    }

    fn take(&self, buf: &mut [u8], pop: bool) -> Option<io::Result<(usize, SocketAddr)>> {
        match n::recv(self.id, pop) {
            n::Rx::Got(d, a) => {
                // UDP truncates silently
                let k = d.len().min(buf.len());
                if k < d.len() {
                    sim::fault("truncated_recv");
                }
                buf[..k].copy_from_slice(&d[..k]);
                Some(Ok((k, a)))
            }
            n::Rx::Err(e) => Some(Err(e)),
            n::Rx::Empty => None,
        }
    }
    fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8], pop: bool) -> Poll<io::Result<(usize, SocketAddr)>> {
        sim::preempt();
        if sim::forced_yield() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match self.take(buf, pop) {
            Some(r) => Poll::Ready(r),
            None => {
                n::add_reader(self.id, cx.waker());
                Poll::Pending
            }
        }
    }
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        poll_fn(|cx| self.poll_read(cx, buf, true)).await
    }
    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        poll_fn(|cx| self.poll_read(cx, buf, false)).await
    }
    pub fn poll_recv_from(&self, cx: &mut Context<'_>, buf: &mut crate::io::ReadBuf<'_>) -> Poll<io::Result<SocketAddr>> {
        self.poll_read(cx, buf.initialize_unfilled(), true).map_ok(|(k, a)| {
            buf.advance(k);
            a
        })
    }
    pub fn poll_recv(&self, cx: &mut Context<'_>, buf: &mut crate::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.poll_recv_from(cx, buf).map_ok(|_| ())
    }
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.recv_from(buf).await.map(|x| x.0)
    }
    pub fn try_recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.take(buf, true).unwrap_or_else(|| Err(would_block()))
    }
    pub fn try_recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.try_recv_from(buf).map(|x| x.0)
    }
    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| {
            sim::preempt();
            match n::recv(self.id, false) {
                n::Rx::Empty => {
                    n::add_reader(self.id, cx.waker());
                    Poll::Pending
                }
                _ => Poll::Ready(Ok(())),
            }
        })
        .await
    }
    pub async fn writable(&self) -> io::Result<()> {
        poll_fn(|cx| n::poll_writable(self.id, cx).map(Ok)).await
    }
}
