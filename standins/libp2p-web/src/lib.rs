//! The part of libp2p that the first wallet uses: connections and streams are those of the harness's world.
pub use futures;
pub use libp2p_web_derive::NetworkBehaviour;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;

/// What there is outside of the wallet.
pub struct World {
    /// none if nothing can be dialled, else the events that follow
    pub dial: Box<dyn FnMut(&str) -> Option<Vec<swarm::SwarmEvent>>>,
    /// a stream to a peer under a protocol, or none if the peer does not speak it
    pub open: Box<dyn FnMut(PeerId, &[u8]) -> Option<Box<dyn Stream>>>,
}
pub trait Stream: futures::io::AsyncRead + futures::io::AsyncWrite + Unpin + Send {}
impl<T: futures::io::AsyncRead + futures::io::AsyncWrite + Unpin + Send> Stream for T {}
thread_local! { static WORLD: RefCell<Option<World>> = const { RefCell::new(None) }; }
pub fn world(w: Option<World>) {
    WORLD.with(|c| *c.borrow_mut() = w)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Multiaddr(String);
#[derive(Debug)]
pub struct AddressError(String);
impl std::fmt::Display for AddressError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} is no address", self.0)
    }
}
impl std::error::Error for AddressError {}
impl std::str::FromStr for Multiaddr {
    type Err = AddressError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let mut parts = s.split('/');
        let mut good = parts.next() == Some("") && s.len() > 1;
        while let Some(p) = parts.next() {
            good &= match p {
                "ip4" => parts.next().is_some_and(|a| a.parse::<std::net::Ipv4Addr>().is_ok()),
                "ip6" => parts.next().is_some_and(|a| a.parse::<std::net::Ipv6Addr>().is_ok()),
                "dns" | "dns4" | "dns6" | "p2p" => parts.next().is_some_and(|a| !a.is_empty()),
                "tcp" => parts.next().is_some_and(|a| a.parse::<u16>().is_ok()),
                "ws" | "wss" => true,
                _ => false,
            }
        }
        good.then(|| Multiaddr(s.into())).ok_or(AddressError(s.into()))
    }
}
impl std::fmt::Display for Multiaddr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct PeerId(pub u64);
impl std::fmt::Display for PeerId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "12D3{:016x}", self.0)
    }
}
pub mod core {
    pub use super::{Multiaddr, PeerId};
    pub trait ProtocolName {
        fn protocol_name(&self) -> &[u8];
    }
}
pub mod request_response {
    use super::core::ProtocolName;
    use super::*;
    use futures::io::{AsyncRead, AsyncWrite, AsyncWriteExt};
    #[async_trait::async_trait]
    pub trait RequestResponseCodec {
        type Protocol: ProtocolName + Send + Clone;
        type Request: Send;
        type Response: Send;
        async fn read_request<T>(&mut self, protocol: &Self::Protocol, io: &mut T) -> io::Result<Self::Request>
        where
            T: AsyncRead + Unpin + Send;
        async fn read_response<T>(&mut self, protocol: &Self::Protocol, io: &mut T) -> io::Result<Self::Response>
        where
            T: AsyncRead + Unpin + Send;
        async fn write_request<T>(&mut self, protocol: &Self::Protocol, io: &mut T, req: Self::Request) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send;
        async fn write_response<T>(&mut self, protocol: &Self::Protocol, io: &mut T, res: Self::Response) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send;
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum ProtocolSupport {
        Inbound,
        Outbound,
        Full,
    }
    #[derive(Clone, Debug, Default)]
    pub struct RequestResponseConfig {
        timeout: std::time::Duration,
    }
    impl RequestResponseConfig {
        pub fn set_request_timeout(&mut self, t: std::time::Duration) -> &mut Self {
            self.timeout = t;
            self
        }
        pub fn set_connection_keep_alive(&mut self, _: std::time::Duration) -> &mut Self {
            self
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct RequestId(u64);
    #[derive(Debug)]
    pub enum RequestResponseMessage<Q, R> {
        Request { request_id: RequestId, request: Q },
        Response { request_id: RequestId, response: R },
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum OutboundFailure {
        DialFailure,
        Timeout,
        ConnectionClosed,
        UnsupportedProtocols,
    }
    #[derive(Debug)]
    pub enum RequestResponseEvent<Q, R> {
        Message { peer: PeerId, message: RequestResponseMessage<Q, R> },
        OutboundFailure { peer: PeerId, request_id: RequestId, error: OutboundFailure },
    }
    pub struct RequestResponse<C: RequestResponseCodec> {
        codec: C,
        protocols: Vec<C::Protocol>,
        queue: VecDeque<(PeerId, RequestId, C::Request)>,
        next: u64,
    }
    impl<C: RequestResponseCodec> RequestResponse<C> {
        pub fn new(codec: C, protocols: impl IntoIterator<Item = (C::Protocol, ProtocolSupport)>, config: RequestResponseConfig) -> Self {
            assert!(config.timeout > std::time::Duration::ZERO, "no request has time");
            let protocols = protocols.into_iter().filter(|p| p.1 != ProtocolSupport::Inbound).map(|p| p.0).collect();
            RequestResponse { codec, protocols, queue: Default::default(), next: 0 }
        }
        pub fn send_request(&mut self, peer: &PeerId, request: C::Request) -> RequestId {
            self.next += 1;
            self.queue.push_back((*peer, RequestId(self.next), request));
            RequestId(self.next)
        }
    }
    impl<C: RequestResponseCodec> swarm::Part for RequestResponse<C> {
        type Event = RequestResponseEvent<C::Request, C::Response>;
        fn turn<'a>(&'a mut self) -> Pin<Box<dyn Future<Output = Option<Self::Event>> + 'a>> {
            Box::pin(async move {
                let (peer, request_id, request) = self.queue.pop_front()?;
                let failed = |error| Some(RequestResponseEvent::OutboundFailure { peer, request_id, error });
                let spoken = self.protocols.iter().find_map(|p| {
                    let s = WORLD.with(|w| (w.borrow_mut().as_mut().expect("no world").open)(peer, p.protocol_name()));
                    s.map(|s| (p.clone(), s))
                });
                let Some((protocol, mut io)) = spoken else { return failed(OutboundFailure::UnsupportedProtocols) };
                if self.codec.write_request(&protocol, &mut io, request).await.is_err() || io.close().await.is_err() {
                    return failed(OutboundFailure::ConnectionClosed);
                }
                match self.codec.read_response(&protocol, &mut io).await {
                    Ok(response) => Some(RequestResponseEvent::Message { peer, message: RequestResponseMessage::Response { request_id, response } }),
                    Err(_) => failed(OutboundFailure::ConnectionClosed),
                }
            })
        }
    }
}
pub mod swarm {
    use super::*;
    pub trait NetworkBehaviourEventProcess<E> {
        fn inject_event(&mut self, event: E);
    }
    pub trait NetworkBehaviour {
        /// Whether anything was done.
        fn drive<'a>(&'a mut self) -> Pin<Box<dyn Future<Output = bool> + 'a>>;
    }
    pub trait Part {
        type Event;
        fn turn<'a>(&'a mut self) -> Pin<Box<dyn Future<Output = Option<Self::Event>> + 'a>>;
    }
    #[derive(Clone, Debug)]
    pub enum SwarmEvent {
        Dialing(PeerId),
        ConnectionEstablished { peer_id: PeerId, num_established: u32 },
        ConnectionClosed { peer_id: PeerId, num_established: u32 },
        OutgoingConnectionError { peer_id: Option<PeerId>, error: DialError },
    }
    #[derive(Clone, Debug)]
    pub struct DialError;
    impl std::fmt::Display for DialError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "cannot be dialled")
        }
    }
    impl std::error::Error for DialError {}
    pub struct SwarmBuilder<B>(B);
    impl<B: NetworkBehaviour> SwarmBuilder<B> {
        pub fn new<T>(_transport: T, behaviour: B, _local: PeerId) -> Self {
            SwarmBuilder(behaviour)
        }
        pub fn build(self) -> Swarm<B> {
            Swarm { behaviour: self.0, events: Default::default() }
        }
    }
    pub struct Swarm<B> {
        behaviour: B,
        events: VecDeque<SwarmEvent>,
    }
    impl<B: NetworkBehaviour> Swarm<B> {
        pub fn behaviour(&self) -> &B {
            &self.behaviour
        }
        pub fn behaviour_mut(&mut self) -> &mut B {
            &mut self.behaviour
        }
        pub fn dial(&mut self, to: Multiaddr) -> Result<(), DialError> {
            match WORLD.with(|w| (w.borrow_mut().as_mut().expect("no world").dial)(&to.to_string())) {
                Some(l) => Ok(self.events.extend(l)),
                None => Err(DialError),
            }
        }
        pub async fn select_next_some(&mut self) -> SwarmEvent {
            loop {
                if self.behaviour.drive().await {
                    continue;
                }
                match self.events.pop_front() {
                    Some(e) => return e,
                    None => std::future::pending().await,
                }
            }
        }
        pub async fn next(&mut self) -> Option<SwarmEvent> {
            Some(self.select_next_some().await)
        }
    }
}
