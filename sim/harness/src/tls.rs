//! TLS at the scripted ends of a connection (the code under test has its own). Certificates: Ed25519, so that every
//! handshake has the same length; what the random numbers in it are makes no difference to a run.
use std::io;
use std::sync::Arc;
use tokio::io::{AsyncRead, AsyncWrite};
use tokio::net::TcpStream;
use tokio_rustls::rustls::{self, pki_types::*};
use tokio_rustls::{TlsAcceptor, TlsConnector};

pub type R = Box<dyn AsyncRead + Unpin>;
pub type W = Box<dyn AsyncWrite + Unpin>;

const CA: &[u8] = include_bytes!("../tls/ca.der");
const OTHER: &[u8] = include_bytes!("../tls/other.der");
const KEY: &[u8] = include_bytes!("../tls/key.der");

/// What a server can present: a certificate for 127.0.0.1 and localhost; the same from another authority; one for
/// other names; one that is no longer, one that is not yet
/// valid; one for localhost alone.
const SRV: [(&[u8], &[u8]); 6] = [
    (include_bytes!("../tls/srv.der"), CA),
    (include_bytes!("../tls/srv_other.der"), OTHER),
    (include_bytes!("../tls/srv_host.der"), CA),
    (include_bytes!("../tls/srv_old.der"), CA),
    (include_bytes!("../tls/srv_early.der"), CA),
    (include_bytes!("../tls/srv_name.der"), CA),
];

pub fn roots() -> Arc<rustls::RootCertStore> {
    store(0)
}
/// 0: the authority, 1: another one, 2: none
pub fn store(k: u8) -> Arc<rustls::RootCertStore> {
    let mut s = rustls::RootCertStore::empty();
    if k < 2 {
        s.add(CertificateDer::from([CA, OTHER][k as usize].to_vec())).expect("ca");
    }
    Arc::new(s)
}
pub fn acceptor() -> TlsAcceptor {
    acceptor_with(0)
}
pub fn acceptor_with(k: u8) -> TlsAcceptor {
    let key = PrivateKeyDer::try_from(KEY.to_vec()).expect("key");
    let (crt, ca) = SRV[k as usize % SRV.len()];
    let c = rustls::ServerConfig::builder()
        .with_no_client_auth()
        .with_single_cert(vec![CertificateDer::from(crt.to_vec()), CertificateDer::from(ca.to_vec())], key)
        .expect("server config");
    TlsAcceptor::from(Arc::new(c))
}
pub fn connector() -> TlsConnector {
    connector_with(0)
}
pub fn connector_with(k: u8) -> TlsConnector {
    let c = rustls::ClientConfig::builder().with_root_certificates(store(k)).with_no_client_auth();
    TlsConnector::from(Arc::new(c))
}
pub fn plain(s: TcpStream) -> (R, W) {
    let (r, w) = s.into_split();
    (Box::new(r), Box::new(w))
}
pub async fn client<S: AsyncRead + AsyncWrite + Unpin + 'static>(c: &TlsConnector, s: S) -> io::Result<(R, W)> {
    let name = ServerName::try_from("127.0.0.1").expect("name");
    let (r, w) = tokio::io::split(c.connect(name, s).await?);
    Ok((Box::new(r), Box::new(w)))
}
pub async fn server<S: AsyncRead + AsyncWrite + Unpin + 'static>(a: &TlsAcceptor, s: S) -> io::Result<(R, W)> {
    let (r, w) = tokio::io::split(a.accept(s).await?);
    Ok((Box::new(r), Box::new(w)))
}
