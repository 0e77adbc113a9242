H="coerce/src/sharding/host/mod.rs";Q="coerce/src/sharding/host/request.rs";S="coerce/src/sharding/shard/mod.rs";V="coerce/src/sharding/shard/recovery.rs";A="coerce/src/sharding/coordinator/allocation.rs";B="coerce/src/sharding/coordinator/balancing.rs"
PK=[
dict(name="host-alloc",e=[
 (H,"""        if node_id == remote.node_id() {
            let _ = self.remote_shards.remove(&shard_id);

            let self_ref = self.actor_ref(ctx);

            let hosted_shard_entry = self.hosted_shards.entry(shard_id);
            match hosted_shard_entry {
                Entry::Occupied(_) => {
                    // already allocated locally
                    debug!("local shard#{} already allocated", message.0);
                }

                Entry::Vacant(hosted_shard_entry) => {
                    let system = ctx.system().clone();

                    let handler = self.actor_handler.new_boxed();
                    let shard = Shard::new(shard_id, handler, true, self_ref);
                    let actor_ref = system
                        .new_actor_deferred(shard_actor_id, shard, ActorType::Tracked)
                        .await;

                    ctx.attach_child_ref(actor_ref.clone().into());

                    hosted_shard_entry.insert(ShardState::Starting {
                        actor_ref,
                        request_buffer: vec![],
                        stop_requested: None,
                    });

                    debug!("local shard#{} allocated to node={}", message.0, message.1);
                }
            }
        } else {""","""        let is_local = remote.node_id() == node_id;
        if is_local {
            self.remote_shards.remove(&shard_id);

            if self.hosted_shards.contains_key(&shard_id) {
                debug!("local shard#{} already allocated", message.0);
            } else {
                let state = self.start_shard(shard_id, shard_actor_id, ctx).await;
                self.hosted_shards.insert(shard_id, state);
                debug!("local shard#{} allocated to node={}", message.0, message.1);
            }
        } else {"""),
 (H,"""        if let Some(buffered_requests) = self.requests_pending_shard_allocation.remove(&shard_id) {
            debug!(
                "processing {} buffered requests for shard={}",
                buffered_requests.len(),
                shard_id
            );

            for request in buffered_requests {
                self.handle(request, ctx).await;
            }
        }
""","""        let buffered_requests = self
            .requests_pending_shard_allocation
            .remove(&shard_id)
            .unwrap_or_default();

        for request in buffered_requests.into_iter() {
            self.handle(request, ctx).await;
        }
"""),
 (H,"""impl ShardHost {
    fn stop_shard(""","""impl ShardHost {
    async fn start_shard(
        &self,
        shard_id: ShardId,
        shard_actor_id: ActorId,
        ctx: &mut ActorContext,
    ) -> ShardState {
        let system = ctx.system().clone();
        let shard = Shard::new(
            shard_id,
            self.actor_handler.new_boxed(),
            true,
            self.actor_ref(ctx),
        );

        let actor_ref = system
            .new_actor_deferred(shard_actor_id, shard, ActorType::Tracked)
            .await;

        ctx.attach_child_ref(actor_ref.clone().into());

        ShardState::Starting {
            actor_ref,
            request_buffer: Vec::new(),
            stop_requested: None,
        }
    }

    fn stop_shard("""),
]),
dict(name="host-ready",e=[
 (H,"""        if !self.hosted_shards.contains_key(&shard_id) {
            // the shard was allocated to another node (and stopped) while it was starting
            return;
        }

        let shard_state = self
            .hosted_shards
            .insert(shard_id, ShardState::Ready(actor_ref.clone()));

        ctx.attach_child_ref(actor_ref.clone().into());

        match shard_state {
            Some(ShardState::Starting {
                request_buffer,
                stop_requested,
                ..
            }) => {
                if let Some(stop_requested) = stop_requested {
                    // TODO: move the request buffer over to `requests_pending_shard_allocation`
                    self.stop_shard(shard_id, actor_ref, ctx, Some(stop_requested));
                } else {
                    let mut shard_state = ShardState::Ready(actor_ref);
                    for request in request_buffer {
                        handle_request(request, shard_id, &mut shard_state);
                    }
                }
            }

            _ => {}
        }
""","""        let shard_state = match self.hosted_shards.get_mut(&shard_id) {
            Some(current) => std::mem::replace(current, ShardState::Ready(actor_ref.clone())),
            None => return,
        };

        ctx.attach_child_ref(actor_ref.clone().into());

        if let ShardState::Starting {
            request_buffer,
            stop_requested,
            ..
        } = shard_state
        {
            match stop_requested {
                Some(_) => self.stop_shard(shard_id, actor_ref, ctx, stop_requested),
                None => {
                    let mut ready = ShardState::Ready(actor_ref);
                    request_buffer
                        .into_iter()
                        .for_each(|request| handle_request(request, shard_id, &mut ready));
                }
            }
        }
"""),
 (H,"""        let shard_entry = self.hosted_shards.entry(shard_id);
        let stop_request = StopRequested {
            origin_node_id: message.origin_node_id,
            request_id: message.request_id,
        };

        match shard_entry {
            Entry::Occupied(mut shard_entry) => {
                if let ShardState::Starting { stop_requested, .. } = shard_entry.get_mut() {
                    // actor has requested to be started so we can't stop it yet, once the actor
                    // has finished starting, we can then stop it.
                    *stop_requested = Some(stop_request);
                } else if let ShardState::Ready(actor_ref) =
                    shard_entry.insert(ShardState::Stopping)
                {
                    self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
                }
            }
            Entry::Vacant(_) => {}
        }
""","""        let stop_request = StopRequested {
            origin_node_id: message.origin_node_id,
            request_id: message.request_id,
        };

        let state = match self.hosted_shards.get_mut(&shard_id) {
            Some(state) => state,
            None => return,
        };

        match state {
            ShardState::Starting { stop_requested, .. } => {
                stop_requested.replace(stop_request);
            }
            ShardState::Ready(actor_ref) => {
                let actor_ref = actor_ref.clone();
                *state = ShardState::Stopping;
                self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request));
            }
            ShardState::Stopping => {}
        }
"""),
 (H,"""            let result = actor_ref.stop().await;
            let _ = shard_host.notify(ShardStopped {
                shard_id,
                stopped_successfully: result.is_ok(),
            });

            if let Some(stop_requested) = stop_requested {
                let shard_stopped = ShardStopped {
                    shard_id,
                    stopped_successfully: result.is_ok(),
                }
                .into_envelope(EnvelopeType::Remote)
                .unwrap()
                .into_bytes();

                let _ = remote_system
                    .notify_raw_rpc_result(
                        stop_requested.request_id,
                        shard_stopped,
                        stop_requested.origin_node_id,
                    )
                    .await;
            }
""","""            let stopped_successfully = actor_ref.stop().await.is_ok();
            let stopped = || ShardStopped {
                shard_id,
                stopped_successfully,
            };
            let _ = shard_host.notify(stopped());

            let StopRequested {
                origin_node_id,
                request_id,
            } = match stop_requested {
                Some(requested) => requested,
                None => return,
            };

            let reply = stopped().into_envelope(EnvelopeType::Remote).unwrap();
            remote_system
                .notify_raw_rpc_result(request_id, reply.into_bytes(), origin_node_id)
                .await;
"""),
]),
dict(name="request",e=[
 (Q,"""        if let Some(shard) = self.hosted_shards.get_mut(&shard_id) {
            handle_request(message, shard_id, shard);
        } else if let Some(shard) = self.remote_shards.get(&shard_id) {
            let shard_ref = shard.clone();
            tokio::spawn(remote_entity_request(
                shard_ref,
                message,
                ctx.system().remote_owned(),
            ));
        } else {
            let leader = self.get_coordinator();

            let buffered_requests = self.requests_pending_shard_allocation.entry(shard_id);
            let buffered_requests = buffered_requests.or_insert_with(|| vec![]);
            buffered_requests.push(message);

            debug!("shard#{} not allocated, notifying coordinator and buffering request (buffered_requests={})",
                shard_id, buffered_requests.len());

            let host_ref = self.actor_ref(ctx);

            tokio::spawn(async move {
                let allocation = leader
                    .send(AllocateShard {
                        shard_id,
                        rebalancing: false,
                    })
                    .await;
                match allocation {
                    Ok(result) => match result {
                        AllocateShardResult::Allocated(shard_id, node_id)
                        | AllocateShardResult::AlreadyAllocated(shard_id, node_id) => {
                            let _ = host_ref.notify(ShardAllocated(shard_id, node_id));
                        }
                        AllocateShardResult::NotAllocated => {
                            // No hosts available?
                            error!("shard(#{}) not allocated, no hosts available?", shard_id);
                        }
                        AllocateShardResult::Err(e) => {
                            error!("shard(#{}) failed to allocate: {}", shard_id, e);
                        }
                    },
                    Err(_e) => {}
                }
            });
        }
    }
}
""","""        match (
            self.hosted_shards.get_mut(&shard_id),
            self.remote_shards.get(&shard_id),
        ) {
            (Some(shard), _) => handle_request(message, shard_id, shard),
            (None, Some(shard_ref)) => {
                let system = ctx.system().remote_owned();
                let request = remote_entity_request(shard_ref.clone(), message, system);
                tokio::spawn(request);
            }
            (None, None) => {
                self.buffer_request(shard_id, message);
                self.request_allocation(shard_id, ctx);
            }
        }
    }
}

impl ShardHost {
    fn buffer_request(&mut self, shard_id: ShardId, request: EntityRequest) {
        self.requests_pending_shard_allocation
            .entry(shard_id)
            .or_default()
            .push(request);
    }

    fn request_allocation(&self, shard_id: ShardId, ctx: &ActorContext) {
        let coordinator = self.get_coordinator();
        let host_ref = self.actor_ref(ctx);

        tokio::spawn(async move {
            let request = AllocateShard {
                shard_id,
                rebalancing: false,
            };

            let (shard_id, node_id) = match coordinator.send(request).await {
                Ok(AllocateShardResult::Allocated(shard_id, node_id)) => (shard_id, node_id),
                Ok(AllocateShardResult::AlreadyAllocated(shard_id, node_id)) => (shard_id, node_id),
                Ok(AllocateShardResult::NotAllocated) => {
                    error!("shard(#{}) not allocated, no hosts available?", shard_id);
                    return;
                }
                Ok(AllocateShardResult::Err(e)) => {
                    error!("shard(#{}) failed to allocate: {}", shard_id, e);
                    return;
                }
                Err(_e) => return,
            };

            let _ = host_ref.notify(ShardAllocated(shard_id, node_id));
        });
    }
}
"""),
 (Q,"""    let res = match rx.await {
        Ok(response) => {
            result_channel.map(move |result_sender| {
                let response = response.into_result().map_err(|e| e);

                result_sender.send(response)
            });

            Ok(())
        }
        Err(_e) => Err(ActorRefErr::ResultChannelClosed),
    };

    trace!(
        "received reply for RemoteEntityRequest from node_id={} to node_id={}",
        system.node_id(),
        shard_ref.node_id().unwrap()
    );

    res
""","""    let response = rx.await.map_err(|_| ActorRefErr::ResultChannelClosed)?;

    if let Some(result_sender) = result_channel {
        let _ = result_sender.send(response.into_result());
    }

    Ok(())
"""),
 (Q,"""    shard_ref
        .notify(RemoteEntityRequest {
            origin_node: system.node_id(),
            request_id,
            actor_id: request.actor_id.into_actor_id(),
            message_type: request.message_type,
            message: request.message,
            recipe: request.recipe.map(|r| r.as_ref().clone()),
        })
        .await
        .expect("shard notify");
""","""    let EntityRequest {
        actor_id,
        message_type,
        message,
        recipe,
        ..
    } = request;
    let recipe = match recipe {
        Some(recipe) => Some((*recipe).clone()),
        None => None,
    };
    let remote_request = RemoteEntityRequest {
        request_id,
        actor_id,
        message_type,
        message,
        recipe,
        origin_node: system.node_id(),
    };

    if let Err(e) = shard_ref.notify(remote_request).await {
        panic!("shard notify: {:?}", e);
    }
"""),
 (Q,"""            let actor = actor.clone();
            tokio::spawn(async move {
                let actor_id = message.actor_id.clone();
                let message_type = message.message_type.clone();

                let result = actor.send(message).await;
                if !result.is_ok() {
                    error!(
                        "failed to deliver EntityRequest (actor_id={}, type={}) to shard (shard_id={})",
                        &actor_id, &message_type, shard_id,
                    );
                } else {
                    trace!(
                        "delivered EntityRequest (actor_id={}, type={}) to shard (shard_id={})",
                        &actor_id,
                        message_type,
                        shard_id,
                    );
                }
            });
        }
        ShardState::Stopping => {}
    }
}
""","""            tokio::spawn(deliver(actor.clone(), message, shard_id));
        }
        ShardState::Stopping => {}
    }
}

async fn deliver(
    actor: crate::actor::LocalActorRef<Shard>,
    request: EntityRequest,
    shard_id: ShardId,
) {
    let actor_id = request.actor_id.clone();
    match actor.send(request).await {
        Ok(_) => trace!("delivered EntityRequest (actor_id={}) shard={}", &actor_id, shard_id),
        Err(e) => error!("failed to deliver EntityRequest (actor_id={}) shard={}, {}", &actor_id, shard_id, e),
    }
}
"""),
]),
dict(name="codec",e=[
 (Q,"""            recipe: self.recipe.clone().map_or_else(
                || None.into(),
                |r| {
                    Some(proto::remote_entity_request::Recipe {
                        recipe: r,
                        ..Default::default()
                    })
                    .into()
                },
            ),
            origin_node""","""            recipe: self
                .recipe
                .as_ref()
                .map(|r| proto::remote_entity_request::Recipe {
                    recipe: r.clone(),
                    ..Default::default()
                })
                .into(),
            origin_node"""),
 (Q,"""        proto::RemoteEntityRequest::parse_from_bytes(&buffer).map_or_else(
            |_e| Err(MessageUnwrapErr::DeserializationErr),
            |proto| {
                Ok(RemoteEntityRequest {
                    request_id: Uuid::from_str(&proto.request_id).unwrap(),
                    actor_id: proto.actor_id.into_actor_id(),
                    message_type: proto.message_type,
                    message: proto.message,
                    recipe: proto
                        .recipe
                        .into_option()
                        .map_or(None, |recipe| Some(recipe.recipe)),
                    origin_node: proto.origin_node,
                })
            },
        )
""","""        let proto = match proto::RemoteEntityRequest::parse_from_bytes(&buffer) {
            Ok(proto) => proto,
            Err(_e) => return Err(MessageUnwrapErr::DeserializationErr),
        };

        let recipe = proto.recipe.into_option().map(|recipe| recipe.recipe);
        Ok(RemoteEntityRequest {
            request_id: Uuid::parse_str(&proto.request_id).unwrap(),
            actor_id: proto.actor_id.into_actor_id(),
            message_type: proto.message_type,
            message: proto.message,
            recipe,
            origin_node: proto.origin_node,
        })
"""),
 (A,"""        let result = proto::AllocateShardResult::parse_from_bytes(&buffer);
        let result = match result {
            Ok(result) => match result.result_type.unwrap() {
                allocate_shard_result::Type::ALLOCATED => {
                    let allocation = result.allocation.unwrap();
                    AllocateShardResult::Allocated(allocation.shard_id, allocation.node_id)
                }
                allocate_shard_result::Type::ALREADY_ALLOCATED => {
                    let allocation = result.allocation.unwrap();
                    AllocateShardResult::AlreadyAllocated(allocation.shard_id, allocation.node_id)
                }
                allocate_shard_result::Type::NOT_ALLOCATED => AllocateShardResult::NotAllocated,
                allocate_shard_result::Type::ERR => {
                    AllocateShardResult::Err(match result.err.unwrap() {
                        allocate_shard_result::AllocateShardErr::PERSISTENCE => {
                            AllocateShardErr::Persistence
                        }
                        allocate_shard_result::AllocateShardErr::UNKNOWN => {
                            AllocateShardErr::Unknown
                        }
                    })
                }
            },
            Err(_e) => return Err(MessageUnwrapErr::DeserializationErr),
        };

        Ok(result)
""","""        let result = proto::AllocateShardResult::parse_from_bytes(&buffer)
            .map_err(|_e| MessageUnwrapErr::DeserializationErr)?;

        let allocated = |r: proto::AllocateShardResult| {
            let allocation = r.allocation.unwrap();
            (allocation.shard_id, allocation.node_id)
        };

        Ok(match result.result_type.unwrap() {
            allocate_shard_result::Type::ERR => {
                AllocateShardResult::Err(if result.err.unwrap()
                    == allocate_shard_result::AllocateShardErr::PERSISTENCE
                {
                    AllocateShardErr::Persistence
                } else {
                    AllocateShardErr::Unknown
                })
            }
            allocate_shard_result::Type::NOT_ALLOCATED => AllocateShardResult::NotAllocated,
            allocate_shard_result::Type::ALLOCATED => {
                let (shard_id, node_id) = allocated(result);
                AllocateShardResult::Allocated(shard_id, node_id)
            }
            allocate_shard_result::Type::ALREADY_ALLOCATED => {
                let (shard_id, node_id) = allocated(result);
                AllocateShardResult::AlreadyAllocated(shard_id, node_id)
            }
        })
"""),
 (A,"""        let mut result: proto::AllocateShardResult = Default::default();

        match res {
            AllocateShardResult::Allocated(shard_id, node_id) => {
                result.result_type = allocate_shard_result::Type::ALLOCATED.into();
                result.allocation = Some(proto::RemoteShard {
                    shard_id,
                    node_id,
                    ..Default::default()
                })
                .into();
            }
            AllocateShardResult::AlreadyAllocated(shard_id, node_id) => {
                result.result_type = allocate_shard_result::Type::ALREADY_ALLOCATED.into();
                result.allocation = Some(proto::RemoteShard {
                    shard_id,
                    node_id,
                    ..Default::default()
                })
                .into();
            }
            AllocateShardResult::NotAllocated => {
                result.result_type = allocate_shard_result::Type::NOT_ALLOCATED.into();
            }
            AllocateShardResult::Err(e) => {
                result.result_type = allocate_shard_result::Type::ERR.into();
                result.err = match e {
                    AllocateShardErr::Persistence => {
                        allocate_shard_result::AllocateShardErr::PERSISTENCE
                    }
                    AllocateShardErr::Unknown => allocate_shard_result::AllocateShardErr::UNKNOWN,
                }
                .into();
            }
        }

        result
            .write_to_bytes()
""","""        fn remote_shard(shard_id: ShardId, node_id: NodeId) -> proto::RemoteShard {
            let mut shard = proto::RemoteShard::new();
            shard.shard_id = shard_id;
            shard.node_id = node_id;
            shard
        }

        let result = match res {
            AllocateShardResult::Allocated(shard_id, node_id) => proto::AllocateShardResult {
                result_type: allocate_shard_result::Type::ALLOCATED.into(),
                allocation: Some(remote_shard(shard_id, node_id)).into(),
                ..Default::default()
            },
            AllocateShardResult::AlreadyAllocated(shard_id, node_id) => {
                proto::AllocateShardResult {
                    result_type: allocate_shard_result::Type::ALREADY_ALLOCATED.into(),
                    allocation: Some(remote_shard(shard_id, node_id)).into(),
                    ..Default::default()
                }
            }
            AllocateShardResult::NotAllocated => proto::AllocateShardResult {
                result_type: allocate_shard_result::Type::NOT_ALLOCATED.into(),
                ..Default::default()
            },
            AllocateShardResult::Err(AllocateShardErr::Persistence) => proto::AllocateShardResult {
                result_type: allocate_shard_result::Type::ERR.into(),
                err: allocate_shard_result::AllocateShardErr::PERSISTENCE.into(),
                ..Default::default()
            },
            AllocateShardResult::Err(AllocateShardErr::Unknown) => proto::AllocateShardResult {
                result_type: allocate_shard_result::Type::ERR.into(),
                err: allocate_shard_result::AllocateShardErr::UNKNOWN.into(),
                ..Default::default()
            },
        };

        result
            .write_to_bytes()
"""),
]),
]
