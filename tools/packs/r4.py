R="coerce/src/remote/actor/registry.rs";C="coerce/src/remote/actor/clients.rs";D="coerce/src/remote/cluster/discovery/mod.rs";N="coerce/src/remote/cluster/node.rs";Y="coerce/src/remote/system/cluster.rs";H="coerce/src/remote/heartbeat/health.rs";P="coerce/src/remote/stream/pubsub.rs";M="coerce/src/remote/stream/mediator/mod.rs"
PK=[
dict(name="registry",e=[
 (R,"""        let assigned_registry_node = self.nodes.get_by_key(&id).map(|n| n.id);

        let assigned_registry_node = assigned_registry_node.map_or_else(
            || {
                trace!("no nodes configured, assigning locally");
                current_system
            },
            |n| n,
        );

        trace!("{:?}", &self.nodes.get_all());

        let local_registry_entry = self.actors.get(&id);
        if local_registry_entry.is_some() || &assigned_registry_node == &current_system {
            trace!("searching locally, {}", current_system);
            let node = local_registry_entry.map(|s| *s);

            trace!("found: {:?}", &node);
            let _ = message.sender.send(node);
        } else {""","""        let assigned_registry_node = match self.nodes.get_by_key(&id) {
            Some(node) => node.id,
            None => current_system,
        };

        let known = self.actors.get(&id).copied();
        if let Some(node) = known {
            let _ = message.sender.send(Some(node));
        } else if assigned_registry_node == current_system {
            let _ = message.sender.send(None);
        } else {"""),
 (R,"""                match res_rx.await {
                    Ok(RemoteResponse::Ok(res)) => {
                        let res = ActorAddress::parse_from_bytes(&res);
                        match res {
                            Ok(res) => {
                                let _ = sender.send(if res.node_id.is_none() {
                                    None
                                } else {
                                    Some(res.node_id.value)
                                });
                            }
                            Err(e) => {
                                panic!("failed to decode message - {}", e.to_string());
                            }
                        }
                    }
                    _ => panic!("get actornode failed"),
                }""","""                let bytes = match res_rx.await {
                    Ok(RemoteResponse::Ok(bytes)) => bytes,
                    _ => panic!("get actornode failed"),
                };
                let address = ActorAddress::parse_from_bytes(&bytes)
                    .unwrap_or_else(|e| panic!("failed to decode message - {}", e));
                let node = address.node_id.into_option().map(|n| n.value);
                let _ = sender.send(node);"""),
 (R,"""        match message.node_id {
            Some(node_id) => {
                trace!("registering actor locally {}", node_id);
                self.actors.insert(message.actor_id, node_id);
            }

            None => {
                if let Some(system) = self.system.as_mut() {
                    let node_id = system.node_id();
                    let id = message.actor_id;

                    let assigned_registry_node =
                        self.nodes.get_by_key(&id).map_or_else(|| node_id, |n| n.id);

                    if &assigned_registry_node == &node_id {
                        trace!("registering actor locally {}", assigned_registry_node);
                        self.actors.insert(id, node_id);
                    } else {
                        let system = system.clone();
                        tokio::spawn(async move {
                            let event = SessionEvent::RegisterActor(ActorAddress {
                                node_id: Some(UInt64Value::from(node_id)).into(),
                                actor_id: id.to_string(),
                                ..ActorAddress::default()
                            });
                            system.notify_node(assigned_registry_node, event).await;
                        });
                    }
                }
            }
        }""","""        let id = message.actor_id;
        if let Some(node_id) = message.node_id {
            self.actors.insert(id, node_id);
            return;
        }
        let system = match self.system.clone() {
            Some(system) => system,
            None => return,
        };
        let node_id = system.node_id();
        let owner = self.nodes.get_by_key(&id).map(|n| n.id).unwrap_or(node_id);
        if owner == node_id {
            self.actors.insert(id, node_id);
            return;
        }
        let address = ActorAddress {
            node_id: Some(UInt64Value::from(node_id)).into(),
            actor_id: id.to_string(),
            ..ActorAddress::default()
        };
        tokio::spawn(async move {
            system
                .notify_node(owner, SessionEvent::RegisterActor(address))
                .await;
        });"""),
 (C,"""        let node_addr_entry = self.node_addr_registry.entry(message.addr.clone());
        let entry = match node_addr_entry {
            Entry::Vacant(vacant_entry) => vacant_entry,
            Entry::Occupied(entry) => {
                return {
                    debug!("RemoteClient already exists for addr={}", &message.addr);
                    let client = entry.get();
                    Some(client.clone())
                }
            }
        };

        debug!("creating RemoteClient, addr={}", &message.addr);

        let client_actor =
            RemoteClient::new(message.addr.clone(), message.system, message.client_type).await;

        debug!("created RemoteClient, addr={}", &message.addr);
        entry.insert(client_actor.clone());

        Some(client_actor)""","""        if let Some(client) = self.node_addr_registry.get(&message.addr) {
            return Some(client.clone());
        }

        let addr = message.addr;
        let client = RemoteClient::new(addr.clone(), message.system, message.client_type).await;
        self.node_addr_registry.insert(addr, client.clone());
        Some(client)"""),
 (C,"""        if let Some(node_id) = message.node_id {
            self.node_id_registry.remove(&node_id);
        }

        self.node_addr_registry.remove(&message.addr);
""","""        self.node_addr_registry.remove(&message.addr);
        match &message.node_id {
            Some(node_id) => {
                self.node_id_registry.remove(node_id);
            }
            None => {}
        }
"""),
 (C,"""        let node_id = message.0;
        let message = message.1;
""","""        let ClientWrite(node_id, message) = message;
"""),
 (C,"""        if let Some(client) = self.node_id_registry.get(&node_id) {
            trace!("emitting message ({:?}) to node_id={}", &message, &node_id);
            if client.notify(Write(message)).is_err() {
                warn!(
                    "attempted to write message to node_id={} but its client has stopped",
                    &node_id
                );
            }
        } else {
            // TODO: should we buffer the message incase the client will eventually exist
            warn!("attempted to write message to node_id={} but no client was registered (message={:?})", &node_id, &message);
        }""","""        let client = match self.node_id_registry.get(&node_id) {
            None => {
                warn!("no client was registered");
                return;
            }
            Some(client) => client.clone(),
        };
        if let Err(e) = client.notify(Write(message)) {
            warn!("client stopped {}", e);
        }"""),
 (C,"""        for client in &self.node_id_registry {
            let _ = client.1.stop().await;
        }""","""        for client in self.node_id_registry.values() {
            let _ = client.stop().await;
        }"""),
]),
dict(name="disc",e=[
 (D,"""                if self.discovered_nodes_by_addr.contains_key(&addr) {
                    info!("node (addr={}) already discovered", &addr);

                    if let Some(on_discovery_complete) = message.on_discovery_complete {
                        let _ = on_discovery_complete.send(true);
                    }

                    return;
                }

                if let Some(seed_node) = self.get_node_identity(addr.clone(), &remote).await {""","""                if self.discovered_nodes_by_addr.get(&addr).is_some() {
                    complete(message.on_discovery_complete, true);
                    return;
                }

                if let Some(seed_node) = self.get_node_identity(addr.clone(), &remote).await {"""),
 (D,"""                    if discovered_nodes.len() > 1 {
                        let nodes_to_discover: Vec<Arc<NodeIdentity>> =
                            discovered_nodes.values().cloned().collect();
                        for node_identity in nodes_to_discover {
                            self.discover_nodes(&remote, node_identity, &mut discovered_nodes)
                                .await;
                        }
                    } else if discovered_nodes.len() == 0 {
                        if let Some(discovery_complete) = message.on_discovery_complete {
                            let _ = discovery_complete.send(true);
                        }

                        return;
                    }

                    let _ = self.actor_ref(ctx).notify(Discover {
                        seed: Seed::Nodes(
                            discovered_nodes.values().map(|n| n.node.clone()).collect(),
                        ),
                        on_discovery_complete: message.on_discovery_complete,
                    });
                } else {
                    warn!(
                        node_id = remote.node_id(),
                        "unable to identify node (addr={})", &addr
                    );

                    if let Some(discovery_complete) = message.on_discovery_complete {
                        let _ = discovery_complete.send(false);
                    }
                }""","""                    if discovered_nodes.len() > 1 {
                        let peers: Vec<_> = discovered_nodes.values().cloned().collect();
                        for peer in peers.into_iter() {
                            self.discover_nodes(&remote, peer, &mut discovered_nodes)
                                .await;
                        }
                    }

                    let mut nodes = Vec::with_capacity(discovered_nodes.len());
                    for identity in discovered_nodes.values() {
                        nodes.push(identity.node.clone());
                    }
                    let _ = self.actor_ref(ctx).notify(Discover {
                        seed: Seed::Nodes(nodes),
                        on_discovery_complete: message.on_discovery_complete,
                    });
                } else {
                    complete(message.on_discovery_complete, false);
                }"""),
 (D,"""                for node in nodes {
                    if !current_nodes.contains(&node.id)
                        && !self.discovering_nodes.contains(&node.id)
                    {
                        let node_addr = node.addr.clone();
                        if let Some(client) = remote.get_remote_client(node_addr).await {
                            remote.register_node(node.clone()).await;

                            let seed_nodes = remote
                                .get_nodes()
                                .await
                                .into_iter()
                                .filter(|n| n.status != NodeStatus::Terminated)
                                .map(|n| n.into())
                                .collect();

                            self.discovering_nodes.insert(node.id);
                            tasks.push(discover_node_handshake(
                                node,
                                remote.clone(),
                                client,
                                seed_nodes,
                            ));
                        }
                    }
                }
""","""                for node in nodes {
                    let known = current_nodes.contains(&node.id);
                    if known || self.discovering_nodes.contains(&node.id) {
                        continue;
                    }
                    let client = match remote.get_remote_client(node.addr.clone()).await {
                        Some(client) => client,
                        None => continue,
                    };
                    self.discovering_nodes.insert(node.id);
                    remote.register_node(node.clone()).await;

                    let mut seed_nodes: Vec<RemoteNode> = vec![];
                    for known in remote.get_nodes().await {
                        if known.status == NodeStatus::Terminated {
                            continue;
                        }
                        seed_nodes.push(known.into());
                    }
                    tasks.push(discover_node_handshake(
                        node,
                        remote.clone(),
                        client,
                        seed_nodes,
                    ));
                }
"""),
 (D,"""                    if let Some(discovery_complete) = on_discovery_complete {
                        let _ = discovery_complete.send(true);
                    }
                });""","""                    complete(on_discovery_complete, true);
                });"""),
 (D,"""struct NodeDiscovered {""","""fn complete(callback: Option<Sender<bool>>, discovered: bool) {
    if let Some(callback) = callback {
        let _ = callback.send(discovered);
    }
}

struct NodeDiscovered {"""),
 (D,"""        if let Some(identity) = self.discovered_nodes_by_addr.remove(&message.0) {
            debug!(
                "forgetting node (addr={}, id={})",
                &identity.node.addr, identity.node.id
            );

            let node = self.discovered_nodes_by_id.remove(&identity.node.id);
            if let Some(node) = node {
                if let Some(system) = self.remote_system.as_ref() {
                    let system = system.clone();
                    let node = Arc::new(node.node.clone());

                    // TODO: if configured to do so, remove the node from the RemoteRegistry/RemoteNodeStore

                    let _ = tokio::spawn(async move {
                        PubSub::publish_locally(
                            SystemTopic,
                            SystemEvent::Cluster(ClusterEvent::NodeRemoved(node)),
                            &system,
                        )
                        .await;
                    });
                }
            }
        }""","""        let removed = self
            .discovered_nodes_by_addr
            .remove(&message.0)
            .and_then(|identity| self.discovered_nodes_by_id.remove(&identity.node.id));
        if let (Some(identity), Some(system)) = (removed, self.remote_system.clone()) {
            let event = ClusterEvent::NodeRemoved(Arc::new(identity.node.clone()));
            tokio::spawn(async move {
                PubSub::publish_locally(SystemTopic, SystemEvent::Cluster(event), &system).await;
            });
        }"""),
 (D,"""        if message.successful {
            if self.discovering_nodes.remove(&message.node.id) {
                PubSub::publish_locally(
                    SystemTopic,
                    SystemEvent::Cluster(ClusterEvent::NodeAdded(Arc::new(message.node))),
                    remote,
                )
                .await;
            }
        } else {
            // retry handshake etc?
            self.discovering_nodes.remove(&message.node.id);

            warn!(
                "handshake to node (addr={}, id={}) from node_id={} failed",
                message.node.addr,
                message.node.id,
                remote.node_id()
            );
        }""","""        let was_discovering = self.discovering_nodes.remove(&message.node.id);
        if !message.successful {
            warn!("handshake failed");
            return;
        }
        if was_discovering {
            let node = Arc::new(message.node);
            let event = SystemEvent::Cluster(ClusterEvent::NodeAdded(node));
            PubSub::publish_locally(SystemTopic, event, remote).await;
        }"""),
 (D,"""            match discovered_nodes.entry(node.id) {
                Entry::Vacant(entry) => {
                    let node_identity = self.get_node_identity(node.addr.clone(), remote).await;
                    if let Some(node_identity) = node_identity {
                        entry.insert(node_identity);
                    }
                }
                _ => continue,
            }""","""            if discovered_nodes.contains_key(&node.id) {
                continue;
            }
            if let Some(identity) = self.get_node_identity(node.addr.clone(), remote).await {
                discovered_nodes.insert(node.id, identity);
            }"""),
 (D,"""        let client = remote.get_remote_client(addr.clone()).await;
        if let Some(client) = client {
            let identity = client.identify().await;
            if let Ok(Some(identity)) = identity {
                let identity = Arc::new(identity);
                let node_remote_addr = identity.node.addr.clone();
                let node_id = identity.node.id;

                info!(
                    "cached node identity (addr={}, remote_addr={})",
                    &addr, &node_remote_addr
                );

                if addr != node_remote_addr {
                    self.discovered_nodes_by_addr.insert(addr, identity.clone());
                }

                self.discovered_nodes_by_addr
                    .insert(node_remote_addr, identity.clone());

                self.discovered_nodes_by_id
                    .insert(node_id, identity.clone());

                Some(identity)
            } else {
                info!("unable to identify node");
                None
            }
        } else {
            warn!(
                "no client created for addr={}, unable to identify node",
                &addr
            );

            None
        }""","""        let client = remote.get_remote_client(addr.clone()).await?;
        let identity = Arc::new(client.identify().await.ok()??);
        let announced = identity.node.addr.clone();
        self.discovered_nodes_by_id
            .insert(identity.node.id, identity.clone());
        self.discovered_nodes_by_addr.insert(addr, identity.clone());
        self.discovered_nodes_by_addr
            .insert(announced, identity.clone());
        Some(identity)"""),
]),
dict(name="node",e=[
 (N,"""        for node in nodes {
            self.nodes.insert(node.id, node);
        }""","""        self.nodes.extend(nodes.into_iter().map(|n| (n.id, n)));"""),
 (N,"""        let node = self.get_mut(&node_id);
        if let Some(node) = node {
            node.status = NodeStatus::Terminated;
        }""","""        match self.nodes.get_mut(&node_id) {
            Some(node) => node.status = NodeStatus::Terminated,
            None => {}
        }"""),
 (N,"""        let mut nodes = self.get_all();
        nodes.retain(|n| n.id != node.id);
        nodes.push(RemoteNodeState::new(node));
        nodes.sort_by(|a, b| a.id.partial_cmp(&b.id).unwrap());

        self.table = HashRing::new();
        self.nodes = nodes
            .into_iter()
            .map(|n| {
                let node = n.clone();
                self.table.add(n.into());
                (node.id, node)
            })
            .collect();""","""        let mut nodes: Vec<RemoteNodeState> = self
            .get_all()
            .into_iter()
            .filter(|n| n.id != node.id)
            .collect();
        nodes.push(RemoteNodeState::new(node));
        nodes.sort_by_key(|n| n.id);

        let mut table = HashRing::new();
        let mut by_id = HashMap::new();
        for n in nodes {
            table.add(n.clone().into());
            by_id.insert(n.id, n);
        }
        self.table = table;
        self.nodes = by_id;"""),
 (N,"""        self.nodes.remove(&node_id).and_then(|node| {
            let node = node.into();
            self.table.remove(&node)
        })""","""        let state = self.nodes.remove(node_id)?;
        let node: RemoteNode = state.into();
        self.table.remove(&node)"""),
 (N,"""        let id = node.id;
        let addr = node.addr;
        let node_started_at = node.node_started_at;
        let tag = node.tag;

        Self {
            id,
            addr,
            node_started_at,
            tag,
            ping_latency: None,
            last_heartbeat: None,
            status: NodeStatus::Joining,
            attributes: node.attributes.clone(),
        }""","""        let RemoteNode {
            id,
            addr,
            tag,
            node_started_at,
            attributes,
        } = node;
        Self {
            id,
            addr,
            tag,
            node_started_at,
            attributes,
            ..Self::default()
        }"""),
 (N,"""            node_id: s.id,
            addr: s.addr.clone(),
            tag: s.tag.clone(),
            node_started_at: s.node_started_at.as_ref().map(datetime_to_timestamp).into(),
            attributes: s
                .attributes
                .iter()
                .map(|(k, v)| (k.to_string(), v.to_string()))
                .collect(),
            ..Self::default()
        }""","""            ..RemoteNode::from(s).into()
        }"""),
 (Y,"""        let n = self.inner.current_leader.load(Ordering::SeqCst);
        if n != -1 {
            Some(n as NodeId)
        } else {
            None
        }""","""        leader(self.inner.current_leader.load(Ordering::SeqCst))"""),
 (Y,"""        let n = self
            .inner
            .current_leader
            .swap(new_leader as i64, Ordering::SeqCst);
        if n != -1 {
            Some(n as NodeId)
        } else {
            None
        }""","""        let leader_id = new_leader as i64;
        leader(self.inner.current_leader.swap(leader_id, Ordering::SeqCst))"""),
 (Y,"""impl RemoteActorSystem {
""","""fn leader(n: i64) -> Option<NodeId> {
    match n {
        -1 => None,
        n => Some(n as NodeId),
    }
}

impl RemoteActorSystem {
"""),
]),
dict(name="health",e=[
 (H,"""                    if let Ok(ActorStatus::Started) = status {
                        (actor_path, Some(time_taken))
                    } else {
                        (actor_path, None)
                    }
                }))""","""                    let response_time = match status {
                        Ok(ActorStatus::Started) => Some(time_taken),
                        _ => None,
                    };
                    (actor_path, response_time)
                }))"""),
 (H,"""            let mut errors_exist = false;
            let mut slow_actors_exist = false;
            for check in &checks {
                if check.1.is_none() {
                    errors_exist = true;
                    break;
                } else if let Some(check) = &check.1 {
                    if check > &SLOW_ACTOR_DURATION {
                        /*todo: this should be configurable*/
                        slow_actors_exist = true;
                    }
                }
            }
""","""            let mut status = HealthStatus::Healthy;
            for (_, response_time) in &checks {
                match response_time {
                    None => {
                        status = HealthStatus::Unhealthy;
                        break;
                    }
                    Some(time) if *time > SLOW_ACTOR_DURATION => {
                        status = HealthStatus::Degraded;
                    }
                    Some(_) => {}
                }
            }
"""),
 (H,"""                status: if errors_exist {
                    HealthStatus::Unhealthy
                } else if slow_actors_exist {
                    HealthStatus::Degraded
                } else {
                    HealthStatus::Healthy
                },
                actor_response_times: checks.into_iter().map(|n| (n.0, n.1)).collect(),""","""                status,
                actor_response_times: checks.into_iter().collect(),"""),
]),
dict(name="health2",e=[
 (H,"""            let mut errors_exist = false;
            let mut slow_actors_exist = false;
            for check in &checks {
                if check.1.is_none() {
                    errors_exist = true;
                    break;
                } else if let Some(check) = &check.1 {
                    if check > &SLOW_ACTOR_DURATION {
                        /*todo: this should be configurable*/
                        slow_actors_exist = true;
                    }
                }
            }
""","""            let errors_exist = checks.iter().any(|(_, taken)| taken.is_none());
            let slow_actors_exist = checks
                .iter()
                .filter_map(|(_, taken)| taken.as_ref())
                .any(|taken| *taken > SLOW_ACTOR_DURATION);
"""),
]),
dict(name="pubsub",e=[
 (P,"""        let system = ctx.system().remote();
        if let Some(mediator) = system.stream_mediator() {
            mediator
                .send(Subscribe::<A, T>::new(topic, ctx.actor_ref()))
                .await
                .unwrap()
        } else {
            panic!("no stream mediator found, system not setup for distributed streams")
        }""","""        let mediator = ctx.system().remote().stream_mediator().expect("no stream mediator");
        let subscribe = Subscribe::<A, T>::new(topic, ctx.actor_ref());
        match mediator.send(subscribe).await {
            Ok(result) => result,
            Err(e) => panic!("{}", e),
        }"""),
 (P,"""        if let Some(mediator) = system.stream_mediator() {
            let reach = Reach::Local;

            let _ = mediator
                .send(Publish {
                    topic,
                    message,
                    reach,
                })
                .await
                .unwrap();
        } else {
            panic!("no stream mediator found, system not setup for distributed streams")
        }""","""        Self::publish_to(topic, message, Reach::Local, system).await"""),
 (P,"""        if let Some(mediator) = system.stream_mediator() {
            let _ = mediator
                .send(Publish::<T> {
                    topic,
                    message,
                    reach: Reach::Cluster,
                })
                .await
                .unwrap();
        } else {
            panic!("no stream mediator found, system not setup for distributed streams")
        }
    }
""","""        Self::publish_to(topic, message, Reach::Cluster, system).await
    }

    async fn publish_to<T: Topic>(
        topic: T,
        message: T::Message,
        reach: Reach,
        system: &RemoteActorSystem,
    ) {
        let mediator = match system.stream_mediator() {
            Some(mediator) => mediator,
            None => panic!("no stream mediator found, system not setup for distributed streams"),
        };
        let publish = Publish {
            topic,
            message,
            reach,
        };
        let _ = mediator.send(publish).await.unwrap();
    }
"""),
 (P,"""        match self.channels.get(key) {
            Some(channel) => channel.subscribe(),
            None => {
                let (sender, receiver) = broadcast::channel(1024);
                self.channels.insert(key.to_string(), sender);

                receiver
            }
        }""","""        self.channels
            .entry(key.to_string())
            .or_insert_with(|| broadcast::channel(1024).0)
            .subscribe()"""),
 (P,"""        match self.channels.get(key) {
            Some(sender) => {
                sender.send(Receive(msg));
            }
            None => {
                trace!(
                    "no subscribers, message will not be sent (topic={})",
                    T::topic_name()
                )
            }
        }""","""        if let Some(sender) = self.channels.get(key) {
            let _ = sender.send(Receive(msg));
        }"""),
 (P,"""            let receiver_ref = receiver_ref;
            let mut stream_receiver = topic_receiver;
            loop {
                match stream_receiver.recv().await {
                    Ok(message) => {
                        if receiver_ref.notify(message).is_err() {
                            break;
                        }
                    }
                    Err(RecvError::Lagged(skipped)) => {
                        warn!(
                            "subscriber is too slow, {} messages were skipped (topic={})",
                            skipped,
                            T::topic_name()
                        );
                    }
                    Err(RecvError::Closed) => break,
                }
            }""","""            let mut receiver = topic_receiver;
            loop {
                let message = match receiver.recv().await {
                    Ok(message) => message,
                    Err(RecvError::Lagged(_)) => continue,
                    Err(RecvError::Closed) => return,
                };
                if let Err(_) = receiver_ref.notify(message) {
                    return;
                }
            }"""),
 (M,"""        let topic_key = &topic.key();
        let receiver = match self.topics.entry(T::topic_name().to_string()) {
            Entry::Occupied(occupied) => occupied.into_mut(),
            Entry::Vacant(vacant_entry) => {
                let topic = MediatorTopic::new::<T>();
                vacant_entry.insert(topic)
            }
        };
""","""        let topic_key = &topic.key();
        let receiver = self
            .topics
            .entry(T::topic_name().to_string())
            .or_insert_with(MediatorTopic::new::<T>);
"""),
 (M,"""        if message.reach.remote_publish() && !self.nodes.is_empty() {
            match msg.write_to_bytes() {
                Some(bytes) => {
                    let remote = self.remote().clone();
                    let topic = T::topic_name().to_string();
                    let key = message.topic.key();
                    let nodes: Vec<NodeId> = self.nodes.iter().copied().collect();

                    tokio::spawn(async move {
                        let message = bytes;
                        let publish = Arc::new(StreamPublishEvent {
                            topic,
                            message,
                            key,
                            ..Default::default()
                        });

                        let node_count = nodes.len();
                        for node in nodes {
                            let _ = remote
                                .notify_node(node, SessionEvent::StreamPublish(publish.clone()))
                                .await;
                        }

                        debug!("notified {} nodes", node_count);
                    });
                    Ok(())
                }
                None => Err(PublishErr::SerializationErr),
            }
        } else {
            Ok(())
        }""","""        if self.nodes.is_empty() || !message.reach.remote_publish() {
            return Ok(());
        }
        let bytes = msg.write_to_bytes().ok_or(PublishErr::SerializationErr)?;
        let publish = Arc::new(StreamPublishEvent {
            topic: T::topic_name().to_string(),
            message: bytes,
            key: message.topic.key(),
            ..Default::default()
        });
        let remote = self.remote().clone();
        let nodes = self.nodes.clone();
        tokio::spawn(async move {
            for node in nodes.iter() {
                let event = SessionEvent::StreamPublish(publish.clone());
                remote.notify_node(*node, event).await;
            }
        });
        Ok(())"""),
 (M,"""        match Arc::<StreamPublishEvent>::try_unwrap(s) {
            Ok(p) => {
                let topic = p.topic;
                let key = p.key;
                let message = p.message;

                Self {
                    topic,
                    key,
                    message,
                }
            }
            Err(s) => {
                let topic = s.topic.clone();
                let key = s.key.clone();
                let message = s.message.clone();

                Self {
                    topic,
                    key,
                    message,
                }
            }
        }""","""        let event = Arc::try_unwrap(s).unwrap_or_else(|s| s.as_ref().clone());
        Self {
            topic: event.topic,
            key: event.key,
            message: event.message,
        }"""),
]),
]
