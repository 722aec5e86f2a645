//! Shared by the demonstrations: a discovery service that does what it is told, and pairs of connections.
#![allow(dead_code, unused_imports)]
use async_trait::async_trait;
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{memory::Memory, Connection, Listener, Protocol, UnfinalizedConnection},
        UserPublicKey,
    },
    crypto::{
        rng::DeterministicRng,
        signature::KeyPair,
        tls::{generate_cert_from_ca, LOCAL_CA_CERT, LOCAL_CA_KEY},
    },
    def::{RunDef, TestTopic, TestingConnection},
    discovery::{BrokerIdentifier, DiscoveryClient},
    error::{Error, Result},
};
use jf_signature::{bls_over_bn254::BLSOverBN254CurveSignatureScheme as BLS, SignatureScheme as _};
use std::{
    collections::{HashMap, HashSet, VecDeque},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

#[derive(Default)]
pub struct Script {
    pub heartbeats: Vec<u64>,
    /// answers of check_whitelist, in order (true for everybody after that); an Err is a failure
    pub whitelist: VecDeque<std::result::Result<bool, ()>>,
    pub least: VecDeque<BrokerIdentifier>,
    pub issue: VecDeque<std::result::Result<u64, ()>>,
    pub issued: Vec<(BrokerIdentifier, Duration, Vec<u8>)>,
    pub permits: HashMap<u64, Vec<u8>>,
    pub others: VecDeque<std::result::Result<HashSet<BrokerIdentifier>, ()>>,
    pub set: Vec<Vec<UserPublicKey>>,
}

#[derive(Clone, Default)]
pub struct Fake(pub Arc<Mutex<Script>>);

fn fail<T>() -> Result<T> {
    Err(Error::Connection("scripted failure".to_string()))
}

#[async_trait]
impl DiscoveryClient for Fake {
    async fn new(_: String, _: Option<BrokerIdentifier>) -> Result<Self> {
        Ok(Self::default())
    }
    async fn perform_heartbeat(&mut self, n: u64, _: Duration) -> Result<()> {
        self.0.lock().unwrap().heartbeats.push(n);
        Ok(())
    }
    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        let mut s = self.0.lock().unwrap();
        let b = s.least.pop_front();
        b.map_or_else(fail, Ok)
    }
    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        match self.0.lock().unwrap().others.pop_front() {
            Some(Ok(o)) => Ok(o),
            Some(Err(())) => fail(),
            None => Ok(HashSet::new()),
        }
    }
    async fn issue_permit(&mut self, b: &BrokerIdentifier, e: Duration, k: Vec<u8>) -> Result<u64> {
        let mut s = self.0.lock().unwrap();
        match s.issue.pop_front() {
            Some(Ok(p)) => {
                s.issued.push((b.clone(), e, k.clone()));
                s.permits.insert(p, k);
                Ok(p)
            }
            _ => fail(),
        }
    }
    async fn validate_permit(&mut self, _: &BrokerIdentifier, p: u64) -> Result<Option<Vec<u8>>> {
        Ok(self.0.lock().unwrap().permits.remove(&p))
    }
    async fn set_whitelist(&mut self, users: Vec<UserPublicKey>) -> Result<()> {
        self.0.lock().unwrap().set.push(users);
        Ok(())
    }
    async fn check_whitelist(&mut self, _: &UserPublicKey) -> Result<bool> {
        match self.0.lock().unwrap().whitelist.pop_front() {
            Some(Ok(b)) => Ok(b),
            Some(Err(())) => fail(),
            None => Ok(true),
        }
    }
}

pub struct FakeDef;
impl RunDef for FakeDef {
    type Broker = TestingConnection<Memory>;
    type User = TestingConnection<Memory>;
    type DiscoveryClientType = Fake;
    type Topic = TestTopic;
}

pub fn keys(seed: u64) -> KeyPair<BLS> {
    let (private_key, public_key) = BLS::key_gen(&(), &mut DeterministicRng(seed)).unwrap();
    KeyPair { public_key, private_key }
}

pub fn broker_id(name: &str) -> BrokerIdentifier {
    format!("{name}-public/{name}-private").try_into().unwrap()
}

/// Both ends of a connection over a protocol: (incoming, outgoing).
pub async fn pair_on<P: Protocol>(endpoint: &str) -> (Connection, Connection) {
    let (cert, key) = generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY).unwrap();
    let listener = P::bind(endpoint, cert, key).await.unwrap();
    let ep = endpoint.to_string();
    let out = tokio::spawn(async move { P::connect(&ep, true, Limiter::none()).await });
    let incoming = listener.accept().await.unwrap().finalize(Limiter::none()).await.unwrap();
    (incoming, out.await.unwrap().unwrap())
}

static NEXT: AtomicU64 = AtomicU64::new(1);

pub async fn pair() -> (Connection, Connection) {
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    pair_on::<Memory>(&format!("demo-{n}")).await
}
