//! A broker without its tasks, for demonstrations inside the broker's crate.
#![allow(dead_code)]
use super::common::*;
use crate::{connections::{Connections, DirectMap}, Inner};
use cdn_proto::{connection::{limiter::Limiter, protocols::Connection}, def::{NoMessageHook, RunDef, TestTopic, TestingConnection}, discovery::{BrokerIdentifier, DiscoveryClient}};
use parking_lot::RwLock;
use std::sync::Arc;

pub fn inner(name: &str, discovery: Fake) -> Arc<Inner<FakeDef>> {
    let identity: BrokerIdentifier = broker_id(name);
    Arc::new(Inner {
        discovery_client: discovery,
        identity: identity.clone(),
        keypair: keys(0),
        connections: Arc::new(RwLock::new(Connections::new(identity))),
        limiter: Limiter::none(),
        user_message_hook: NoMessageHook,
        broker_message_hook: NoMessageHook,
    })
}

/// A user with a session at the broker: the user's end of it.
pub async fn user(inner: &Arc<Inner<FakeDef>>, key: &[u8], topics: &[u8]) -> Connection {
    let (i, key) = (inner.clone(), Arc::new(key.to_vec()));
    let (incoming, outgoing) = pair().await;
    let (k, c) = (key.clone(), incoming.clone());
    let session = tokio::spawn(async move { i.user_receive_loop(&k, c).await });
    inner.connections.write().add_user(&key, incoming, topics, session.abort_handle());
    outgoing
}

/// A broker with a session at the broker, that some users are located at and that is interested in some topics.
pub async fn peer(inner: &Arc<Inner<FakeDef>>, name: &str, users: &[&[u8]], topics: &[u8]) -> Connection {
    let (i, id) = (inner.clone(), broker_id(name));
    let (incoming, outgoing) = pair().await;
    let (k, c) = (id.clone(), incoming.clone());
    let session = tokio::spawn(async move { i.broker_receive_loop(&k, c).await });
    let mut connections = inner.connections.write();
    connections.add_broker(id.clone(), incoming, session.abort_handle());
    let mut map = DirectMap::new(id.clone());
    for u in users {
        map.insert(Arc::new(u.to_vec()), id.clone());
    }
    connections.apply_user_sync(map);
    connections.subscribe_broker_to(&id, topics.to_vec());
    outgoing
}
