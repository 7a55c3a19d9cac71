//! Stand-in for `async-std`: name resolution without threads or real DNS.
pub mod net {
    use std::future::{ready, Ready};
    use std::io;
    use std::net::{IpAddr, SocketAddr};

    fn resolve(host: &str, port: u16) -> io::Result<Vec<SocketAddr>> {
        if let Ok(ip) = host.trim_matches(|c| c == '[' || c == ']').parse::<IpAddr>() {
            return Ok(vec![SocketAddr::new(ip, port)]);
        }
        if host == "localhost" || host.ends_with(".sim") {
            return Ok(vec![SocketAddr::from(([127, 0, 0, 1], port))]);
        }
        Err(io::Error::new(io::ErrorKind::NotFound, "sim: unknown host"))
    }
    fn resolve_str(s: &str) -> io::Result<Vec<SocketAddr>> {
        if let Ok(a) = s.parse::<SocketAddr>() {
            return Ok(vec![a]);
        }
        let (h, p) = s
            .rsplit_once(':')
            .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "sim: no port"))?;
        let p = p
            .parse()
            .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "sim: bad port"))?;
        resolve(h, p)
    }

    pub trait ToSocketAddrs {
        type Iter: Iterator<Item = SocketAddr>;
        fn to_socket_addrs(&self) -> Ready<io::Result<Self::Iter>>;
    }
    type It = std::vec::IntoIter<SocketAddr>;
    impl ToSocketAddrs for str {
        type Iter = It;
        fn to_socket_addrs(&self) -> Ready<io::Result<It>> {
            ready(resolve_str(self).map(|v| v.into_iter()))
        }
    }
    impl ToSocketAddrs for String {
        type Iter = It;
        fn to_socket_addrs(&self) -> Ready<io::Result<It>> {
            ready(resolve_str(self).map(|v| v.into_iter()))
        }
    }
    impl ToSocketAddrs for (&str, u16) {
        type Iter = It;
        fn to_socket_addrs(&self) -> Ready<io::Result<It>> {
            ready(resolve(self.0, self.1).map(|v| v.into_iter()))
        }
    }
    impl ToSocketAddrs for (String, u16) {
        type Iter = It;
        fn to_socket_addrs(&self) -> Ready<io::Result<It>> {
            ready(resolve(&self.0, self.1).map(|v| v.into_iter()))
        }
    }
    impl ToSocketAddrs for (IpAddr, u16) {
        type Iter = It;
        fn to_socket_addrs(&self) -> Ready<io::Result<It>> {
            ready(Ok(vec![SocketAddr::new(self.0, self.1)].into_iter()))
        }
    }
    impl ToSocketAddrs for SocketAddr {
        type Iter = It;
        fn to_socket_addrs(&self) -> Ready<io::Result<It>> {
            ready(Ok(vec![*self].into_iter()))
        }
    }
    impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
        type Iter = T::Iter;
        fn to_socket_addrs(&self) -> Ready<io::Result<Self::Iter>> {
            (**self).to_socket_addrs()
        }
    }
}
pub mod io {
    pub use std::io::{Error, ErrorKind, Result};
}
