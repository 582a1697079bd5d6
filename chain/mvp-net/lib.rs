//! The real processor, and, of the transport that the wallet builds, how it asks for it.
pub mod p2p {
    use libp2p::PeerId;
    use std::cell::RefCell;
    use std::time::Duration;
    #[derive(Debug)]
    pub struct TransportConfig(&'static str);
    pub static MAINNET_CONFIG: TransportConfig = TransportConfig("mainnet");
    #[derive(Default)]
    pub struct TransportBuilder {
        config: Option<&'static str>,
        timeout: Option<Duration>,
    }
    thread_local! { pub static BUILT: RefCell<Vec<(Option<&'static str>, Option<Duration>)>> = const { RefCell::new(vec![]) }; }
    impl TransportBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_config(mut self, c: &TransportConfig) -> Self {
            self.config = Some(c.0);
            self
        }
        pub fn with_mainnet_config(self) -> Self {
            self.with_config(&MAINNET_CONFIG)
        }
        pub fn with_timeout(mut self, t: Duration) -> Self {
            self.timeout = Some(t);
            self
        }
        pub fn build(self) -> Result<((), PeerId), std::io::Error> {
            BUILT.with(|b| b.borrow_mut().push((self.config, self.timeout)));
            Ok(((), PeerId(0)))
        }
    }
}
#[path = "/repo/network/src/processor/mod.rs"]
pub mod processor;
