//! Sockets of the harness (loopback only, non-blocking).
use std::net::{Ipv4Addr, SocketAddrV4, UdpSocket};
use std::os::fd::AsRawFd;

pub struct Sock {
    pub s: UdpSocket,
    pub addr: SocketAddrV4,
}

fn opt(s: &UdpSocket, name: i32, v: i32) -> bool {
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, name, &v as *const _ as *const _, 4) == 0
    }
}

impl Sock {
    fn wrap(s: UdpSocket) -> Sock {
        s.set_nonblocking(true).unwrap();
        if !opt(&s, libc::SO_RCVBUFFORCE, 1 << 24) {
            opt(&s, libc::SO_RCVBUF, 1 << 24);
        }
        let addr = match s.local_addr().unwrap() {
            std::net::SocketAddr::V4(a) => a,
            _ => unreachable!(),
        };
        Sock { s, addr }
    }
    /// A socket of its own on 127.0.0.1
    pub fn any() -> Sock {
        Self::wrap(UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("bind"))
    }
    /// Binds `addr` next to a node's wildcard socket of the same port (SO_REUSEPORT): datagrams to
    /// this address arrive here and not at the node
    pub fn tap(addr: SocketAddrV4) -> std::io::Result<Sock> {
        unsafe {
            let fd = libc::socket(libc::AF_INET, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0);
            let s: UdpSocket = std::os::fd::FromRawFd::from_raw_fd(fd);
            opt(&s, libc::SO_REUSEPORT, 1);
            let sa = libc::sockaddr_in {
                sin_family: libc::AF_INET as u16,
                sin_port: addr.port().to_be(),
                sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(addr.ip().octets()) },
                sin_zero: [0; 8],
            };
            if libc::bind(fd, &sa as *const _ as *const _, std::mem::size_of_val(&sa) as u32) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(Self::wrap(s))
        }
    }
    pub fn send(&self, d: &[u8], to: SocketAddrV4) {
        for _ in 0..1000 {
            match self.s.send_to(d, to) {
                Ok(_) => return,
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => continue,
                Err(e) if e.raw_os_error() == Some(libc::EMSGSIZE) => return,
                Err(_) => std::thread::yield_now(),
            }
        }
    }
    pub fn recv(&self) -> Option<(Vec<u8>, u16)> {
        let mut b = [0u8; 4096];
        loop {
            match self.s.recv_from(&mut b) {
                Ok((n, a)) => return Some((b[..n].to_vec(), a.port())),
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => continue,
                Err(_) => return None,
            }
        }
    }
}

static NEXT_PORT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

/// A port number that no one else of this process uses now (nodes bind it on 0.0.0.0)
pub fn port() -> u16 {
    use std::sync::atomic::Ordering::*;
    const LO: u32 = 10_000;
    const N: u32 = 22_000;
    loop {
        let k = NEXT_PORT.fetch_add(1, Relaxed);
        let p = (LO + (std::process::id().wrapping_mul(7919).wrapping_add(k)) % N) as u16;
        if UdpSocket::bind((Ipv4Addr::UNSPECIFIED, p)).is_ok() {
            return p;
        }
    }
}
