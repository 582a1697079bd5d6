//! The part of libp2p 0.44 that mina-rs' transport uses, over pipes in memory instead of sockets: the layers
//! are negotiated on the pipe in the same order and with the same conditions as the real ones (a private
//! network key encrypts everything after two nonces, protocols are agreed by name, noise proves
//! the identity), with simple cryptography. Names and ports are connected through `world`.
use sha2::{Digest, Sha256};
use std::future::Future;
use std::pin::Pin;
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};

pub type BoxFuture<T> = Pin<Box<dyn Future<Output = T>>>;

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update((p.len() as u64).to_le_bytes());
        h.update(p);
    }
    h.finalize().into()
}
/// What the program meets outside: set by the monitor, one for each thread.
pub mod world {
    use super::*;
    use std::cell::{Cell, RefCell};
    /// Connects to an address of numbers, in text, and a port.
    pub type Dial = Box<dyn Fn(&str, u16) -> std::io::Result<DuplexStream>>;
    /// Finds the address of a name.
    pub type Resolve = Box<dyn Fn(&str) -> Option<String>>;
    thread_local! {
        pub static DIAL: RefCell<Option<Dial>> = RefCell::new(None);
        pub static RESOLVE: RefCell<Option<Resolve>> = RefCell::new(None);
        pub static NO_DNS: Cell<bool> = Cell::new(false);
        pub static ENTROPY: Cell<u64> = Cell::new(0);
    }
    pub fn random() -> [u8; 32] {
        let n = ENTROPY.with(|e| e.replace(e.get() + 1));
        sha(&[b"entropy", &n.to_le_bytes()])
    }
}
struct Stream {
    key: [u8; 32],
    pos: u64,
    block: [u8; 32],
}
impl Stream {
    fn new(key: [u8; 32]) -> Self {
        Stream { key, pos: 0, block: [0; 32] }
    }
    fn apply(&mut self, b: &mut [u8]) {
        for x in b {
            if self.pos % 32 == 0 {
                self.block = sha(&[&self.key, &(self.pos / 32).to_le_bytes()]);
            }
            *x ^= self.block[(self.pos % 32) as usize];
            self.pos += 1;
        }
    }
}
/// A connection with the layers on it so far.
pub struct Socket {
    io: DuplexStream,
    write: Vec<Stream>,
    read: Vec<Stream>,
    pub websocket: bool,
    pub layers: Vec<String>,
    pub dialer: bool,
}
impl Socket {
    pub fn new(io: DuplexStream, websocket: bool, dialer: bool) -> Self {
        Socket { io, write: vec![], read: vec![], websocket, layers: vec![], dialer }
    }
    pub async fn send_raw(&mut self, b: &[u8]) -> std::io::Result<()> {
        let mut b = b.to_vec();
        self.write.iter_mut().rev().for_each(|s| s.apply(&mut b));
        self.io.write_all(&b).await
    }
    pub async fn receive_raw(&mut self, n: usize) -> std::io::Result<Vec<u8>> {
        let mut b = vec![0; n];
        self.io.read_exact(&mut b).await?;
        self.read.iter_mut().for_each(|s| s.apply(&mut b));
        Ok(b)
    }
    pub async fn send(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.send_raw(&(b.len() as u16).to_be_bytes()).await?;
        self.send_raw(b).await
    }
    pub async fn receive(&mut self) -> std::io::Result<Vec<u8>> {
        let n = self.receive_raw(2).await?;
        let n = u16::from_be_bytes([n[0], n[1]]) as usize;
        if n > 4096 {
            return Err(bad("frame too long"));
        }
        self.receive_raw(n).await
    }
    /// Agrees on a protocol by its name.
    pub async fn negotiate(&mut self, name: &[u8]) -> std::io::Result<()> {
        const HEAD: &[u8] = b"/multistream/1.0.0\n";
        self.send(HEAD).await?;
        if self.receive().await? != HEAD {
            return Err(bad("no multistream"));
        }
        let line = [name, b"\n"].concat();
        if self.dialer {
            self.send(&line).await?;
            if self.receive().await? != line {
                return Err(bad("protocol refused"));
            }
        } else {
            let asked = self.receive().await?;
            if asked != line {
                self.send(b"na\n").await?;
                return Err(bad("unknown protocol"));
            }
            self.send(&line).await?;
        }
        self.layers.push(String::from_utf8_lossy(name).into_owned());
        Ok(())
    }
    pub async fn private(&mut self, key: &[u8; 32]) -> std::io::Result<()> {
        let mine = world::random();
        self.send_raw(&mine[..24]).await?;
        let theirs = self.receive_raw(24).await?;
        self.write.push(Stream::new(sha(&[key, &mine[..24]])));
        self.read.push(Stream::new(sha(&[key, &theirs])));
        self.layers.push("private network".into());
        Ok(())
    }
    /// Exchanges statics signed by the identities; gives the public key of the other side.
    pub async fn secure(&mut self, own_static: &[u8; 32], public: &[u8; 32], signature: &[u8; 32]) -> std::io::Result<[u8; 32]> {
        self.negotiate(b"/noise").await?;
        self.send(&[&own_static[..], public, signature].concat()).await?;
        let got = self.receive().await?;
        if got.len() != 96 || got[64..] != sha(&[b"noise-libp2p-static-key:", &got[32..64], &got[..32]]) {
            return Err(bad("noise payload"));
        }
        let (a, b) = if self.dialer { (&own_static[..], &got[..32]) } else { (&got[..32], &own_static[..]) };
        let (to, from) = (sha(&[b"to", a, b]), sha(&[b"from", a, b]));
        let (w, r) = if self.dialer { (to, from) } else { (from, to) };
        self.write.push(Stream::new(w));
        self.read.push(Stream::new(r));
        Ok(got[32..64].try_into().unwrap())
    }
}
fn bad(m: &str) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::InvalidData, m.to_string())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Multiaddr(String);
impl std::str::FromStr for Multiaddr {
    type Err = std::io::Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        if s.starts_with('/') { Ok(Multiaddr(s.into())) } else { Err(bad("address")) }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PeerId([u8; 32]);
impl std::fmt::Debug for PeerId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "PeerId({self})")
    }
}
impl std::fmt::Display for PeerId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0[..8].iter().try_for_each(|b| write!(f, "{b:02x}"))
    }
}
impl PeerId {
    pub fn from_public_key(k: &identity::PublicKey) -> Self {
        PeerId(sha(&[b"peer", &k.0]))
    }
    pub fn random() -> Self {
        PeerId(world::random())
    }
}
impl From<identity::PublicKey> for PeerId {
    fn from(k: identity::PublicKey) -> Self {
        Self::from_public_key(&k)
    }
}
impl From<&identity::PublicKey> for PeerId {
    fn from(k: &identity::PublicKey) -> Self {
        Self::from_public_key(k)
    }
}
pub mod identity {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct Keypair(pub(crate) [u8; 32]);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PublicKey(pub [u8; 32]);
    impl Keypair {
        pub fn generate_ed25519() -> Self {
            Keypair(world::random())
        }
        pub fn public(&self) -> PublicKey {
            PublicKey(sha(&[b"public", &self.0]))
        }
        pub fn sign(&self, m: &[u8]) -> [u8; 32] {
            sha(&[b"noise-libp2p-static-key:", &self.public().0, m])
        }
    }
    impl PublicKey {
        pub fn to_peer_id(&self) -> PeerId {
            PeerId::from_public_key(self)
        }
    }
}
pub mod pnet {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct PreSharedKey([u8; 32]);
    impl std::fmt::Debug for PreSharedKey {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("PreSharedKey")
        }
    }
    impl PreSharedKey {
        pub fn new(data: [u8; 32]) -> Self {
            PreSharedKey(data)
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct PnetConfig {
        key: PreSharedKey,
    }
    impl PnetConfig {
        pub fn new(key: PreSharedKey) -> Self {
            PnetConfig { key }
        }
        pub async fn handshake(self, mut socket: Socket) -> std::io::Result<Socket> {
            socket.private(&self.key.0).await?;
            Ok(socket)
        }
    }
}
pub mod noise {
    use super::*;
    use std::marker::PhantomData;
    #[derive(Clone, Copy, Debug)]
    pub struct X25519Spec;
    #[derive(Clone)]
    pub struct Keypair<T>([u8; 32], PhantomData<T>);
    #[derive(Clone)]
    pub struct AuthenticKeypair<T> {
        own: [u8; 32],
        public: [u8; 32],
        signature: [u8; 32],
        spec: PhantomData<T>,
    }
    impl<T> Keypair<T> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Keypair(world::random(), PhantomData)
        }
        pub fn into_authentic(self, id: &identity::Keypair) -> std::io::Result<AuthenticKeypair<T>> {
            Ok(AuthenticKeypair { own: self.0, public: id.public().0, signature: id.sign(&self.0), spec: PhantomData })
        }
    }
    #[derive(Clone)]
    pub struct NoiseConfig<T>(AuthenticKeypair<T>);
    #[derive(Clone)]
    pub struct NoiseAuthenticated<T>(AuthenticKeypair<T>);
    impl<T> NoiseConfig<T> {
        pub fn xx(k: AuthenticKeypair<T>) -> Self {
            NoiseConfig(k)
        }
        pub fn into_authenticated(self) -> NoiseAuthenticated<T> {
            NoiseAuthenticated(self.0)
        }
    }
    impl<T> NoiseAuthenticated<T> {
        pub(crate) async fn run(&self, s: &mut Socket) -> std::io::Result<PeerId> {
            let k = s.secure(&self.0.own, &self.0.public, &self.0.signature).await?;
            Ok(identity::PublicKey(k).to_peer_id())
        }
    }
}
pub mod mplex {
    #[derive(Clone, Debug)]
    pub struct MplexConfig {
        pub(crate) name: &'static [u8],
    }
    impl Default for MplexConfig {
        fn default() -> Self {
            MplexConfig { name: b"/mplex/6.7.0" }
        }
    }
    impl MplexConfig {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn set_protocol_name(&mut self, name: &'static [u8]) -> &mut Self {
            self.name = name;
            self
        }
        pub fn set_max_num_streams(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn set_max_buffer_size(&mut self, _: usize) -> &mut Self {
            self
        }
    }
}
/// Where a connection comes from.
pub enum How {
    Dial(Multiaddr),
    Accept(Socket),
}
#[derive(Debug)]
pub enum TransportError {
    NotSupported,
    Other(std::io::Error),
}
impl From<std::io::Error> for TransportError {
    fn from(e: std::io::Error) -> Self {
        TransportError::Other(e)
    }
}
#[derive(Clone, Debug)]
pub enum ConnectedPoint {
    Dialer,
    Listener,
}
type Opened<T> = BoxFuture<Result<T, TransportError>>;
/// `Ok` with a future of the connection, or the question back if this is not for this transport.
pub trait Transport: Sized {
    type Output: 'static;
    fn open(&self, how: How) -> Result<Opened<Self::Output>, How>;
    fn or_transport<U: Transport<Output = Self::Output>>(self, other: U) -> Or<Self, U> {
        Or(self, other)
    }
    fn and_then<C, F, O>(self, f: C) -> AndThen<Self, C>
    where
        C: FnOnce(Self::Output, ConnectedPoint) -> F + Clone + 'static,
        F: Future<Output = Result<O, std::io::Error>> + 'static,
        O: 'static,
    {
        AndThen(self, f)
    }
    fn upgrade(self, _: core::upgrade::Version) -> core::transport::upgrade::Builder<Self>
    where
        Self: Transport<Output = Socket>,
    {
        core::transport::upgrade::Builder(self)
    }
    fn timeout(self, d: std::time::Duration) -> Timeout<Self> {
        Timeout(self, d)
    }
    fn boxed(self) -> core::transport::Boxed<Self::Output>
    where
        Self: 'static,
    {
        core::transport::Boxed(Box::new(move |h| self.open(h)))
    }
}
#[derive(Clone)]
pub struct Or<A, B>(A, B);
impl<A: Transport, B: Transport<Output = A::Output>> Transport for Or<A, B> {
    type Output = A::Output;
    fn open(&self, how: How) -> Result<Opened<A::Output>, How> {
        self.0.open(how).or_else(|h| self.1.open(h))
    }
}
#[derive(Clone)]
pub struct AndThen<T, C>(T, C);
impl<T, C, F, O> Transport for AndThen<T, C>
where
    T: Transport,
    C: FnOnce(T::Output, ConnectedPoint) -> F + Clone + 'static,
    F: Future<Output = Result<O, std::io::Error>> + 'static,
    O: 'static,
{
    type Output = O;
    fn open(&self, how: How) -> Result<Opened<O>, How> {
        let p = match how {
            How::Dial(_) => ConnectedPoint::Dialer,
            _ => ConnectedPoint::Listener,
        };
        let (o, f) = (self.0.open(how)?, self.1.clone());
        Ok(Box::pin(async move { Ok(f(o.await?, p).await?) }))
    }
}
#[derive(Clone)]
pub struct Timeout<T>(T, std::time::Duration);
impl<T: Transport> Transport for Timeout<T> {
    type Output = T::Output;
    fn open(&self, how: How) -> Result<Opened<T::Output>, How> {
        let (o, d) = (self.0.open(how)?, self.1);
        Ok(Box::pin(async move {
            match tokio::time::timeout(d, o).await {
                Ok(r) => r,
                Err(_) => Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "timeout").into()),
            }
        }))
    }
}
pub mod core {
    pub use crate::{identity, ConnectedPoint, Multiaddr, PeerId, Transport};
    pub mod muxing {
        /// A connection with all its layers.
        pub struct StreamMuxerBox(pub crate::Socket);
    }
    pub mod upgrade {
        #[derive(Clone, Copy, Debug)]
        pub enum Version {
            V1,
            V1Lazy,
        }
    }
    pub mod transport {
        use crate::*;
        pub use crate::Transport;
        pub struct Boxed<O>(pub(crate) Box<dyn Fn(How) -> Result<Opened<O>, How>>);
        impl<O: 'static> Transport for Boxed<O> {
            type Output = O;
            fn open(&self, how: How) -> Result<Opened<O>, How> {
                (self.0)(how)
            }
        }
        pub mod upgrade {
            use crate::*;
            #[derive(Clone)]
            pub struct Builder<T>(pub(crate) T);
            #[derive(Clone)]
            pub struct Authenticated<T, N>(T, N);
            #[derive(Clone)]
            pub struct Multiplexed<T, N>(T, N, mplex::MplexConfig);
            impl<T: Transport<Output = Socket>> Builder<T> {
                pub fn authenticate<S: Clone + 'static>(self, n: noise::NoiseAuthenticated<S>) -> Authenticated<T, noise::NoiseAuthenticated<S>> {
                    Authenticated(self.0, n)
                }
            }
            impl<T: Transport<Output = Socket>, N> Authenticated<T, N> {
                pub fn multiplex(self, m: mplex::MplexConfig) -> Multiplexed<T, N> {
                    Multiplexed(self.0, self.1, m)
                }
            }
            impl<T: Transport<Output = Socket>, S: Clone + 'static> Transport for Multiplexed<T, noise::NoiseAuthenticated<S>> {
                type Output = (PeerId, crate::core::muxing::StreamMuxerBox);
                fn open(&self, how: How) -> Result<Opened<Self::Output>, How> {
                    let (o, n, m) = (self.0.open(how)?, self.1.clone(), self.2.clone());
                    Ok(Box::pin(async move {
                        let mut s = o.await?;
                        let id = n.run(&mut s).await?;
                        s.negotiate(m.name).await?;
                        Ok((id, crate::core::muxing::StreamMuxerBox(s)))
                    }))
                }
            }
        }
        pub use crate::TransportError;
    }
}
fn numbers(a: &str) -> Option<(String, u16)> {
    let p: Vec<&str> = a.split('/').collect();
    match p[..] {
        ["", "ip4" | "ip6", host, "tcp", port] => Some((host.into(), port.parse().ok()?)),
        _ => None,
    }
}
pub mod tcp {
    use super::*;
    #[derive(Clone, Debug, Default)]
    pub struct TokioTcpConfig;
    impl TokioTcpConfig {
        pub fn new() -> Self {
            TokioTcpConfig
        }
        pub fn nodelay(self, _: bool) -> Self {
            self
        }
    }
    impl Transport for TokioTcpConfig {
        type Output = Socket;
        fn open(&self, how: How) -> Result<Opened<Socket>, How> {
            match how {
                How::Accept(s) if !s.websocket => Ok(Box::pin(async { Ok(s) })),
                How::Dial(a) => match numbers(&a.0) {
                    Some((host, port)) => {
                        let r = world::DIAL.with(|d| d.borrow().as_ref().map_or_else(|| Err(bad("no network")), |f| f(&host, port)));
                        Ok(Box::pin(async { Ok(Socket::new(r?, false, true)) }))
                    }
                    None => Err(How::Dial(a)),
                },
                h => Err(h),
            }
        }
    }
}
pub mod dns {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct TokioDnsConfig<T>(T);
    impl<T> TokioDnsConfig<T> {
        pub fn system(inner: T) -> Result<Self, std::io::Error> {
            if world::NO_DNS.with(|d| d.get()) {
                return Err(std::io::Error::new(std::io::ErrorKind::NotFound, "no resolver"));
            }
            Ok(TokioDnsConfig(inner))
        }
    }
    impl<T: Transport> Transport for TokioDnsConfig<T> {
        type Output = T::Output;
        fn open(&self, how: How) -> Result<Opened<T::Output>, How> {
            let How::Dial(a) = how else { return self.0.open(how) };
            let mut p: Vec<String> = a.0.split('/').map(String::from).collect();
            if p.len() > 2 && (p[1] == "dns4" || p[1] == "dns") {
                match world::RESOLVE.with(|r| r.borrow().as_ref().and_then(|f| f(&p[2]))) {
                    Some(n) => {
                        p[1] = "ip4".into();
                        p[2] = n;
                        return self.0.open(How::Dial(Multiaddr(p.join("/")))).map_err(|_| How::Dial(a));
                    }
                    // names of addresses for others are theirs
                    None if p.len() == 5 => return Ok(Box::pin(async { Err(bad("unknown name").into()) })),
                    None => return Err(How::Dial(a)),
                }
            }
            self.0.open(How::Dial(a))
        }
    }
}
pub mod websocket {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct WsConfig<T>(T);
    impl<T> WsConfig<T> {
        pub fn new(inner: T) -> Self {
            WsConfig(inner)
        }
    }
    impl<T: Transport<Output = Socket>> Transport for WsConfig<T> {
        type Output = Socket;
        fn open(&self, how: How) -> Result<Opened<Socket>, How> {
            match how {
                How::Dial(a) => match a.0.strip_suffix("/ws") {
                    Some(inner) => {
                        let o = self.0.open(How::Dial(Multiaddr(inner.into()))).map_err(|_| How::Dial(a.clone()))?;
                        Ok(Box::pin(async move {
                            let mut s = o.await?;
                            s.send_raw(b"GET / HTTP/1.1\r\n").await?;
                            if s.receive_raw(16).await? != b"HTTP/1.1 101 Sw\n" {
                                return Err(bad("no websocket").into());
                            }
                            s.websocket = true;
                            Ok(s)
                        }))
                    }
                    None => Err(How::Dial(a)),
                },
                How::Accept(s) if s.websocket => Ok(Box::pin(async { Ok(s) })),
                h => Err(h),
            }
        }
    }
}
