H="coerce/src/sharding/host/mod.rs";Q="coerce/src/sharding/host/request.rs";S="coerce/src/sharding/shard/mod.rs";V="coerce/src/sharding/shard/recovery.rs";A="coerce/src/sharding/coordinator/allocation.rs";B="coerce/src/sharding/coordinator/balancing.rs";C="coerce/src/sharding/coordinator/mod.rs";D="coerce/src/sharding/coordinator/discovery.rs";M="coerce/src/sharding/mod.rs"
PK=[
dict(name="shard-start",e=[
 (S,"""        let recovered_entities = self.entities.len();
        let node_id = ctx.system().remote().node_id();

        info!(
            "started shard#{} on node_id={}, recovered_entities={}",
            self.shard_id, node_id, recovered_entities
        );

        if recovered_entities > 0 {
            self.recover_entities(ctx).await;
        }

        if self.entity_passivation {
            // TODO: Start entity passivation worker
        }

        let _ = self
            .host
            .notify(ShardReady(self.shard_id, self.actor_ref(ctx)));
""","""        info!(
            "started shard#{} on node_id={}, recovered_entities={}",
            self.shard_id, ctx.system().remote().node_id(), self.entities.len()
        );

        self.recover_entities(ctx).await;

        let ready = ShardReady(self.shard_id, self.actor_ref(ctx));
        if let Err(e) = self.host.notify(ready) {
            warn!("failed to notify host of shard ready, {}", e);
        }
"""),
 (S,"""        let entities = self.get_active_entities();
        for entity in entities {
            let _ = self
                .start_entity(entity.actor_id.clone(), entity.recipe, ctx, true)
                .await;
        }
""","""        for Entity {
            actor_id, recipe, ..
        } in self.get_active_entities()
        {
            self.start_entity(actor_id, recipe, ctx, true).await;
        }
"""),
 (S,"""        self.entities
            .values()
            .filter(|e| e.state.is_starting())
            .cloned()
            .collect()
""","""        let mut active = vec![];
        for (_, entity) in self.entities.iter() {
            if entity.state.is_starting() {
                active.push(entity.clone());
            }
        }
        active
"""),
 (S,"""        let start_entity = StartEntity {
            actor_id: actor_id.clone(),
            recipe: recipe.clone(),
        };

        if !is_shard_recovery && self.persistent_entities {
            let _persist_res = self.persist(&start_entity, ctx).await;
        }

        let handler = self.handler.new_boxed();
        let system = ctx.system().clone();
        let self_ref = self.actor_ref(ctx);

        tokio::spawn(async move {
            let result = handler
                .create(
                    Some(actor_id.clone()),
                    &start_entity.recipe,
                    Some(self_ref.clone().into()),
                    Some(&system),
                )
                .await;

            let _ = self_ref.notify(EntityStartResult {
                actor_id,
                result,
                is_shard_recovery,
            });
        });
""","""        let should_persist = self.persistent_entities && !is_shard_recovery;
        if should_persist {
            let start_entity = StartEntity {
                actor_id: actor_id.clone(),
                recipe: recipe.clone(),
            };
            if let Err(e) = self.persist(&start_entity, ctx).await {
                warn!("failed to persist StartEntity, {}", e);
            }
        }

        let handler = self.handler.new_boxed();
        let system = ctx.system().clone();
        let shard = self.actor_ref(ctx);

        let start = async move {
            let parent = Some(shard.clone().into());
            let result = handler
                .create(Some(actor_id.clone()), &recipe, parent, Some(&system))
                .await;
            let start_result = EntityStartResult {
                actor_id,
                result,
                is_shard_recovery,
            };
            let _ = shard.notify(start_result);
        };
        tokio::spawn(start);
"""),
 (S,"""        match result {
            Ok(actor_ref) => {
                if let Some(previous) = ctx.add_child_ref(actor_ref.clone()) {
                    warn!("spawned entity (id={}) was not removed correctly, ChildRef still exists, {:?}", &actor_id, &previous);
                }

                if let Some(entity) = self.entities.get_mut(&actor_id) {
                    let previous = mem::replace(&mut entity.state, EntityState::Active(actor_ref));
                    match previous {
                        EntityState::Starting { request_buffer } => {
                            debug!(
                                "entity({}) request buffer: {} message(s)",
                                &entity.actor_id,
                                request_buffer.len()
                            );

                            for msg in request_buffer {
                                entity.request(msg.handler, msg.message, msg.result_channel);
                            }
                        }
                        state => {
                            warn!("spawned entity (id={}) state(previous={:?}) was unexpected (expected: `Starting`)", &actor_id, &state);
                            // TODO: anything to cleanup?
                        }
                    }
                }
""","""        match result {
            Ok(actor_ref) => {
                let _ = ctx.add_child_ref(actor_ref.clone());

                if let Some(entity) = self.entities.get_mut(&actor_id) {
                    let buffered = match &mut entity.state {
                        EntityState::Starting { request_buffer } => mem::take(request_buffer),
                        _ => vec![],
                    };
                    entity.state = EntityState::Active(actor_ref);

                    for BufferedReq { handler, message, result_channel } in buffered {
                        entity.request(handler, message, result_channel);
                    }
                }
"""),
 (S,"""                if let Some(entity) = self.entities.remove(&actor_id) {
                    if let EntityState::Starting { request_buffer } = entity.state {
                        for msg in request_buffer {
                            msg.result_channel.map(|c| c.send(Err(e.clone())));
                        }
                    }
                }
""","""                let state = self.entities.remove(&actor_id).map(|e| e.state);
                if let Some(EntityState::Starting { request_buffer }) = state {
                    for result_channel in request_buffer.into_iter().filter_map(|m| m.result_channel) {
                        let _ = result_channel.send(Err(e.clone()));
                    }
                }
"""),
]),
dict(name="shard-req",e=[
 (S,"""        if handler.is_none() {
            let message_type = message.message_type;
            let actor_type = self.handler.actor_type_name().to_string();

            warn!(
                "no message handler configured for message={}, actor_type={}, actor_id={}",
                &message_type, &actor_type, &actor_id
            );

            result_channel.map(|m| {
                let actor_id = actor_id;
                let _ = m.send(Err(ActorRefErr::NotSupported {
                    actor_id,
                    message_type,
                    actor_type,
                }));
            });

            return;
        }

        let handler = handler.unwrap();
""","""        let handler = match handler {
            Some(handler) => handler,
            None => {
                if let Some(result_channel) = result_channel {
                    let _ = result_channel.send(Err(ActorRefErr::NotSupported {
                        actor_id,
                        message_type: message.message_type,
                        actor_type: self.handler.actor_type_name().to_string(),
                    }));
                }
                return;
            }
        };

"""),
 (S,"""        let origin_node = message.origin_node;
        let request_id = message.request_id;
        self.handle(
            {
                let mut message: EntityRequest = message.into();
                message.result_channel = Some(tx);
                message
            },
            ctx,
        )
        .await;

        let system = ctx.system().remote_owned();
        tokio::spawn(async move {
            match rx.await {
                Ok(Ok(result)) => {
                    system
                        .notify_raw_rpc_result(request_id, result, origin_node)
                        .await
                }
                Err(_e) => {
                    error!("remote entity request failed, result channel closed");
                    system
                        .notify_rpc_err(request_id, ActorRefErr::ResultChannelClosed, origin_node)
                        .await;
                }
                Ok(Err(e)) => {
                    error!("remote entity request failed, err={}", &e);
                    system.notify_rpc_err(request_id, e, origin_node).await;
                }
            }
        });
""","""        let RemoteEntityRequest {
            request_id,
            actor_id,
            message_type,
            message,
            recipe,
            origin_node,
        } = message;
        let request = EntityRequest {
            actor_id,
            message_type,
            message,
            recipe: recipe.map(Arc::new),
            result_channel: Some(tx),
        };
        let system = ctx.system().remote_owned();

        tokio::spawn(async move {
            let result = rx
                .await
                .unwrap_or_else(|_| Err(ActorRefErr::ResultChannelClosed));

            match result {
                Ok(bytes) => system.notify_raw_rpc_result(request_id, bytes, origin_node).await,
                Err(e) => system.notify_rpc_err(request_id, e, origin_node).await,
            }
        });

        self.handle(request, ctx).await;
"""),
 (S,"""            EntityState::Active(actor_ref) => {
                let message = message;
                let actor_ref = actor_ref.clone();
                tokio::spawn(async move {
                    handler
                        .handle_direct(&actor_ref, &message, result_channel)
                        .await;
                });
            }
""","""            EntityState::Active(actor_ref) => {
                tokio::spawn(deliver(actor_ref.clone(), handler, message, result_channel));
            }
"""),
 (S,"""impl Entity {
    pub fn request(""","""async fn deliver(
    actor_ref: BoxedActorRef,
    handler: BoxedMessageHandler,
    message: Vec<u8>,
    result_channel: Option<Sender<Result<Vec<u8>, ActorRefErr>>>,
) {
    handler.handle_direct(&actor_ref, &message, result_channel).await
}

impl Entity {
    pub fn request("""),
 (V,"""        self.entities = snapshot
            .entities
            .into_iter()
            .map(|e| (e.actor_id.clone(), e))
            .collect();
""","""        let mut entities = std::collections::HashMap::with_capacity(snapshot.entities.len());
        for entity in snapshot.entities {
            entities.insert(entity.actor_id.clone(), entity);
        }
        self.entities = entities;
"""),
 (V,"""        self.entities.insert(
            message.actor_id.clone(),
            Entity {
                actor_id: message.actor_id,
                recipe: message.recipe,
                state: EntityState::starting(None)/*TODO: if the previous actor was passivated, we should reflect that in the status so the actor is not restarted during recovery*/,
                last_request: Utc::now(),
            },
        );
""","""        let StartEntity { actor_id, recipe } = message;
        let entity = Entity {
            actor_id: actor_id.clone(),
            recipe,
            state: EntityState::Starting { request_buffer: vec![] },
            last_request: Utc::now(),
        };
        self.entities.insert(actor_id, entity);
"""),
 (V,"""        if let Some(entity) = self.entities.get_mut(&message.actor_id) {
            entity.state = EntityState::Passivated;
        }
""","""        let entity = match self.entities.get_mut(&message.actor_id) {
            None => return,
            Some(entity) => entity,
        };
        entity.state = EntityState::Passivated;
"""),
 (V,"""            entities: self.entities.values().cloned().collect(),
        };
""","""            entities: self.entities.iter().map(|(_, e)| e.clone()).collect::<Vec<_>>(),
        };
"""),
]),
dict(name="coord-alloc",e=[
 (A,"""        let shard_entry = self.shards.entry(shard_id);

        match shard_entry {
            Entry::Occupied(node) => AllocateShardResult::AlreadyAllocated(shard_id, *node.get()),
            Entry::Vacant(vacant) => {
                allocate(
                    shard_id,
                    self.hosts.values_mut().filter(|n| n.is_ready()).collect(),
                    vacant,
                )
                .await
            }
        }
""","""        if let Some(node_id) = self.shards.get(&shard_id) {
            return AllocateShardResult::AlreadyAllocated(shard_id, *node_id);
        }

        let mut hosts: Vec<&mut ShardHostState> = vec![];
        for host in self.hosts.values_mut() {
            if host.is_ready() {
                hosts.push(host);
            }
        }

        match self.shards.entry(shard_id) {
            Entry::Vacant(vacant) => allocate(shard_id, hosts, vacant).await,
            Entry::Occupied(node) => AllocateShardResult::AlreadyAllocated(shard_id, *node.get()),
        }
"""),
 (A,"""        if let Some(entry) = self.shards.get(&message.shard_id) {
            return AllocateShardResult::AlreadyAllocated(message.shard_id, *entry);
        }

        if message.rebalancing {
            return self.allocate_shard(message.shard_id, ctx).await;
        }

        match self.persist(&message, ctx).await {
            Ok(_) => self.allocate_shard(message.shard_id, ctx).await,
            Err(e) => {
                warn!(
                    "error persisting a `AllocateShard`, shard_id={}, err={}",
                    message.shard_id, e
                );
                AllocateShardResult::Err(AllocateShardErr::Persistence)
            }
        }
""","""        let shard_id = message.shard_id;
        if let Some(entry) = self.shards.get(&shard_id) {
            return AllocateShardResult::AlreadyAllocated(shard_id, *entry);
        }

        if !message.rebalancing {
            if let Err(e) = self.persist(&message, ctx).await {
                warn!("error persisting a `AllocateShard`, shard_id={}, err={}", shard_id, e);
                return AllocateShardResult::Err(AllocateShardErr::Persistence);
            }
        }

        self.allocate_shard(shard_id, ctx).await
"""),
 (A,"""    hosts.sort_by(|h1, h2| h1.shards.len().cmp(&h2.shards.len()));

    debug!(
        "shard#{} allocating - available nodes={:#?}",
        shard_id, &hosts
    );

    if let Some(host) = hosts.first_mut() {
        let node_id = host.node_id;

        trace!("shard#{} allocated, target_node={}", shard_id, node_id);

        shard_entry.insert(node_id);
        if host.shards.insert(shard_id) {
            let node_id = host.node_id;
            let hosts = hosts.iter().map(|h| h.actor.clone()).collect();
            tokio::spawn(async move {
                broadcast_allocation(shard_id, node_id, hosts).await;
            });
        }

        AllocateShardResult::Allocated(shard_id, node_id)
    } else {
        AllocateShardResult::NotAllocated
    }
""","""    hosts.sort_by_key(|h| h.shards.len());

    let host = match hosts.first_mut() {
        Some(host) => host,
        None => return AllocateShardResult::NotAllocated,
    };

    let node_id = host.node_id;
    let newly_allocated = host.shards.insert(shard_id);
    shard_entry.insert(node_id);

    if newly_allocated {
        let mut actors = Vec::with_capacity(hosts.len());
        for h in &hosts {
            actors.push(h.actor.clone());
        }
        tokio::spawn(broadcast_allocation(shard_id, node_id, actors));
    }

    AllocateShardResult::Allocated(shard_id, node_id)
"""),
 (A,"""    let mut futures = vec![];

    for host in hosts.into_iter() {
        if host.node_id() == Some(node_id) {
            if let Err(_e) = host.send(ShardAllocated(shard_id, node_id)).await {
                warn!(
                    "failed to notify node of shard allocation (shard_id={}, node_id={})",
                    shard_id, node_id
                );
            }
        } else {
            futures.push(async move {
                let host = host;

                trace!(
                    "emitting ShardAllocated to node_id={}",
                    host.node_id().unwrap_or(0)
                );

                if let Err(_e) = host.send(ShardAllocated(shard_id, node_id)).await {
                    error!(
                        "error attempting to send `ShardAllocated({}, {})` to {}",
                        shard_id, node_id, &host
                    )
                }
            });
        }
    }

    let _results = join_all(futures).await;
""","""    let (target, others): (Vec<_>, Vec<_>) = hosts
        .into_iter()
        .partition(|host| host.node_id() == Some(node_id));

    for host in target {
        notify_allocated(host, shard_id, node_id).await;
    }

    join_all(
        others
            .into_iter()
            .map(|host| notify_allocated(host, shard_id, node_id)),
    )
    .await;
"""),
 (A,"""pub async fn broadcast_reallocation(shard_id""","""async fn notify_allocated(host: ActorRef<ShardHost>, shard_id: ShardId, node_id: NodeId) {
    if let Err(e) = host.send(ShardAllocated(shard_id, node_id)).await {
        warn!("failed to send ShardAllocated({}, {}), {}", shard_id, node_id, e);
    }
}

pub async fn broadcast_reallocation(shard_id"""),
 (A,"""    let mut futures = vec![];

    for host in hosts {
        futures.push(async move {
            let host = host;

            trace!(
                "emitting ShardReallocating to node_id={}",
                host.node_id().unwrap_or(0)
            );

            host.send(ShardReallocating(shard_id)).await
        });
    }

    let _results = join_all(futures).await;
""","""    let _results = join_all(
        hosts
            .iter()
            .map(|host| host.send(ShardReallocating(shard_id))),
    )
    .await;
"""),
 (A,"""        let hashed_actor_id = {
            let mut hasher = DefaultHasher::new();
            actor_id.hash(&mut hasher);
            hasher.finish()
        };

        (hashed_actor_id % self.max_shards as u64) as ShardId
""","""        let mut hasher = DefaultHasher::default();
        actor_id.hash(&mut hasher);
        let max_shards = u64::from(self.max_shards);
        (hasher.finish() % max_shards) as ShardId
"""),
]),
dict(name="coord-bal",e=[
 (B,"""                let self_ref = ctx.actor_ref();

                let total_shards = self.shards.len();
                let fair_shard_count_per_node = total_shards / self.hosts.len();

                let mut shards_to_rebalance = vec![];
                for (node_id, shard_host) in &self.hosts {
                    if shard_host.shards.len() > fair_shard_count_per_node {
                        let diff = shard_host.shards.len() - fair_shard_count_per_node;
                        let mut i = 0;
                        for shard in &shard_host.shards {
                            if i >= diff {
                                break;
                            }
                            shards_to_rebalance.push(*shard);

                            i += 1;
                        }

                        debug!(
                            "rebalancing {} shards from node={} - total={} - fair_shard_count_per_node={}",
                            i, node_id, shard_host.shards.len(), fair_shard_count_per_node
                        );
                    }
                }

                self.rebalance_shards(shards_to_rebalance, self_ref, ctx.system().remote())
                    .await
            }
""","""                let fair = self.shards.len() / self.hosts.len();
                let mut shards_to_rebalance = vec![];
                for shard_host in self.hosts.values() {
                    let excess = shard_host.shards.len().saturating_sub(fair);
                    shards_to_rebalance.extend(shard_host.shards.iter().take(excess).copied());
                }

                self.rebalance_shards(shards_to_rebalance, ctx.actor_ref(), ctx.system().remote())
                    .await
            }
"""),
 (B,"""        let hosts = self
            .hosts
            .iter()
            .map(|h| h.1.actor.clone())
            .collect::<Vec<ActorRef<ShardHost>>>();

        let origin_node_id = self.self_node_id.expect("node id");
        for shard in shards.clone() {
            tokio::spawn(broadcast_reallocation(shard, hosts.clone()));

            if let Some(shard_node_id) = self.shards.remove(&shard) {
                let shard_host = self.hosts.get_mut(&shard_node_id).unwrap();
                let _ = shard_host.shards.remove(&shard);
""","""        let mut hosts: Vec<ActorRef<ShardHost>> = vec![];
        for host in self.hosts.values() {
            hosts.push(host.actor.clone());
        }

        let origin_node_id = self.self_node_id.expect("node id");
        for &shard in shards.iter() {
            let reallocation = broadcast_reallocation(shard, hosts.clone());
            tokio::spawn(reallocation);

            if let Some(shard_node_id) = self.shards.remove(&shard) {
                let shard_host = self.hosts.get_mut(&shard_node_id).unwrap();
                shard_host.shards.remove(&shard);
"""),
 (B,"""                    let stop = StopShard { shard_id: shard, request_id, origin_node_id };
                    let result = shard_host_actor.notify(stop).await;
                    match result {
                        Ok(_) => {
                            let result = rx.await;
                            if let Ok(result) = result {
                                let result = ShardStopped::from_bytes(result.into_result().unwrap());
                                match result {
                                    Ok(_res) => {
                                        let _ = self_ref.send(AllocateShard { shard_id: shard, rebalancing: true }).await;
                                    },
                                    Err(e) => {
                                        error!("deserialization error: {}", e);
                                    },
                                }
                            } else {
                                warn!("error recv")
                            }

                        }
                        Err(e) => {
                            error!("error during shard re-balancing - failed to send StopShard (shard_id={}), target_node={}) error={}", shard, &shard_host_actor, e);
                        }
                    }
                });
""","""                    let stop = StopShard { shard_id: shard, request_id, origin_node_id };
                    if let Err(e) = shard_host_actor.notify(stop).await {
                        error!("error during shard re-balancing - failed to send StopShard (shard_id={}), target_node={}) error={}", shard, &shard_host_actor, e);
                        return;
                    }

                    let response = match rx.await {
                        Ok(response) => response.into_result().unwrap(),
                        Err(_) => return,
                    };

                    if let Err(e) = ShardStopped::from_bytes(response) {
                        error!("deserialization error: {}", e);
                        return;
                    }

                    let reallocate = AllocateShard { shard_id: shard, rebalancing: true };
                    let _ = self_ref.send(reallocate).await;
                });
"""),
 (B,"""        let shard_reallocation_tasks = shard_reallocation_tasks;
        let _ = tokio::spawn(async move {
            join_all(shard_reallocation_tasks).await;

            info!("rebalance of shards ({:?}) complete", &shards)
        });
""","""        let all = join_all(shard_reallocation_tasks);
        tokio::spawn(async move {
            let _ = all.await;
            info!("rebalance of shards ({:?}) complete", &shards)
        });
"""),
 (B,"""        let shards_to_rebalance = {
            let mut shard_host_state = match self.hosts.get_mut(&node_id) {
                None => return,
                Some(shard_host_state) => shard_host_state,
            };

            // Mark the host as unavailable, which will exclude it from shard allocation.
            // The node can be made available again, once confirmed
            shard_host_state.status = ShardHostStatus::Unavailable;

            mem::take(&mut shard_host_state.shards)
        };

        let shard_count = shards_to_rebalance.len();
        for shard in shards_to_rebalance {
            self.shards.remove(&shard);
            let _ = self.allocate_shard(shard, ctx).await;
        }
""","""        let shards_to_rebalance = if let Some(host) = self.hosts.get_mut(&node_id) {
            host.status = ShardHostStatus::Unavailable;
            let shards: Vec<ShardId> = host.shards.drain().collect();
            shards
        } else {
            return;
        };

        let shard_count = shards_to_rebalance.len();
        for shard in shards_to_rebalance.iter().copied() {
            let _ = self.shards.remove(&shard);
            self.allocate_shard(shard, ctx).await;
        }
"""),
]),
dict(name="coord-misc",e=[
 (C,"""        let potential_hosts = remote.get_nodes().await;
        for host in potential_hosts {
            if host.id != node_id {
                self.add_host(ShardHostState {
                    node_id: host.id,
                    node_tag: String::default(),
                    shards: HashSet::new(),
                    actor: ShardHost::remote_ref(&self.shard_entity, host.id, remote),
                    status: if host.status == Healthy || host.status == Joining {
                        ShardHostStatus::Ready
                    } else {
                        ShardHostStatus::Unavailable
                    },
                });
            }
        }
""","""        for host in remote.get_nodes().await.into_iter().filter(|n| n.id != node_id) {
            let status = match host.status {
                Healthy | Joining => ShardHostStatus::Ready,
                _ => ShardHostStatus::Unavailable,
            };
            let actor = ShardHost::remote_ref(&self.shard_entity, host.id, remote);
            let state = ShardHostState {
                node_id: host.id,
                node_tag: String::new(),
                shards: Default::default(),
                actor,
                status,
            };
            self.hosts.insert(state.node_id, state);
        }
"""),
 (C,"""        if let Some(scheduled_rebalance) = self.scheduled_rebalance.take() {
            scheduled_rebalance.cancel();
        }

        self.scheduled_rebalance = Some(
            self.actor_ref(ctx)
                .scheduled_notify(Rebalance::All, Duration::from_millis(500)),
        );
""","""        let delay = Duration::from_millis(500);
        let next = self.actor_ref(ctx).scheduled_notify(Rebalance::All, delay);
        if let Some(previous) = self.scheduled_rebalance.replace(next) {
            previous.cancel();
        }
"""),
 (C,"""        match &self.status {
            ShardHostStatus::Ready => true,
            _ => false,
        }
""","""        self.status == ShardHostStatus::Ready
"""),
 (D,"""        match message.0.as_ref() {
            SystemEvent::Cluster(event) => match event {
                ClusterEvent::NodeAdded(node) => {
                    self.on_node_discovered(node.as_ref(), ctx);
                }

                ClusterEvent::NodeRemoved(node) => {
                    self.on_node_removed(node.id, ctx).await;
                }
                _ => {}
            },
            _ => {}
        }
""","""        if let SystemEvent::Cluster(event) = message.0.as_ref() {
            match event {
                ClusterEvent::NodeRemoved(node) => self.on_node_removed(node.id, ctx).await,
                ClusterEvent::NodeAdded(node) => self.on_node_discovered(node, ctx),
                _ => {}
            }
        }
"""),
 (D,"""        match self.hosts.entry(new_node.id) {
            Entry::Occupied(mut node) => {
                let node = node.get_mut();
                if node.status != ShardHostStatus::Ready {
                    node.status = ShardHostStatus::Ready;
                    self.schedule_full_rebalance(ctx);
                }
            }

            Entry::Vacant(vacant_entry) => {
                let remote = ctx.system().remote_owned();

                debug!(
                    "new shard host (node_id={}, tag={}, addr={})",
                    new_node.id, &new_node.tag, &new_node.addr
                );

                vacant_entry.insert(ShardHostState {
                    node_id: new_node.id,
                    node_tag: new_node.tag.clone(),
                    shards: Default::default(),
                    actor: ShardHost::remote_ref(&self.shard_entity, new_node.id, &remote),
                    status: ShardHostStatus::Ready/*TODO: shard hosts may not be immediately ready*/,
                });

                self.schedule_full_rebalance(ctx);
            }
        }
""","""        let changed = match self.hosts.get_mut(&new_node.id) {
            Some(host) if host.is_ready() => false,
            Some(host) => {
                host.status = ShardHostStatus::Ready;
                true
            }
            None => {
                let remote = ctx.system().remote();
                let actor = ShardHost::remote_ref(&self.shard_entity, new_node.id, remote);
                self.add_host(ShardHostState {
                    node_id: new_node.id,
                    node_tag: new_node.tag.clone(),
                    shards: Default::default(),
                    actor,
                    status: ShardHostStatus::Ready,
                });
                true
            }
        };

        if changed {
            self.schedule_full_rebalance(ctx);
        }
"""),
 (D,"""        match self.hosts.entry(node_id) {
            Entry::Occupied(_) => self.handle(Rebalance::NodeUnavailable(node_id), ctx).await,
            Entry::Vacant(_) => {}
        }
""","""        if self.hosts.contains_key(&node_id) {
            self.rebalance_unavailable_node(node_id, ctx).await;
        }
"""),
 (D,"impl Handler<Receive<SystemTopic>> for ShardCoordinator {","impl Handler<Receive<SystemTopic>> for ShardCoordinator {"),
]),
dict(name="sharded",e=[
 (M,"""        let message = match message.as_bytes() {
            Ok(bytes) => bytes,
            Err(e) => return Err(ActorRefErr::Serialisation(e)),
        };

        let message_type = self.sharding.system.handler_name::<A, M>().ok_or_else(|| {
            ActorRefErr::NotSupported {
                actor_id: self.actor_id.clone(),
                message_type: M::type_name().to_string(),
                actor_type: A::type_name().to_string(),
            }
        })?;

        let (tx, rx) = oneshot::channel();

        let actor_id = self.actor_id.clone();
        let _res = self.sharding.notify_host(EntityRequest {
            actor_id,
            message_type,
            message,
            recipe: self.recipe.clone(),
            result_channel: Some(tx),
        });

        let result = rx.await;
        if let Ok(result) = result {
            let result =
                result.map(|res| M::read_remote_result(res).map_err(ActorRefErr::Deserialisation));

            result.unwrap_or_else(|e| Err(e))
        } else {
            Err(ActorRefErr::ResultChannelClosed)
        }
""","""        let message = message.as_bytes().map_err(ActorRefErr::Serialisation)?;

        let message_type = match self.sharding.system.handler_name::<A, M>() {
            Some(message_type) => message_type,
            None => {
                return Err(ActorRefErr::NotSupported {
                    actor_id: self.actor_id.clone(),
                    message_type: M::type_name().to_string(),
                    actor_type: A::type_name().to_string(),
                })
            }
        };

        let (result_tx, result_rx) = oneshot::channel();
        let request = EntityRequest {
            actor_id: self.actor_id.clone(),
            message_type,
            message,
            recipe: self.recipe.clone(),
            result_channel: Some(result_tx),
        };

        let _ = self.sharding.host.notify(request);

        match result_rx.await {
            Ok(Ok(bytes)) => M::read_remote_result(bytes).map_err(ActorRefErr::Deserialisation),
            Ok(Err(e)) => Err(e),
            Err(_) => Err(ActorRefErr::ResultChannelClosed),
        }
"""),
 (M,"""        let recipe = match recipe {
            Some(recipe) => recipe.write_to_bytes().map(Arc::new),
            None => None,
        };

        let sharding = self.core.clone();
        Sharded {
            actor_id,
            recipe,
            sharding,
            _a: Default::default(),
        }
""","""        let recipe = recipe.and_then(|recipe| recipe.write_to_bytes()).map(Arc::new);

        Sharded {
            actor_id,
            recipe,
            sharding: Arc::clone(&self.core),
            _a: PhantomData,
        }
"""),
]),
]
