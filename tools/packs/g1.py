P="coerce/src/singleton/proxy/mod.rs";S="coerce/src/singleton/proxy/send.rs";M="coerce/src/singleton/manager/mod.rs";L="coerce/src/singleton/manager/lease.rs";T="coerce/src/singleton/manager/start.rs";O="coerce/src/singleton/mod.rs"
PK=[
dict(name="proxy",e=[
 (P,"""        match &mut self.state {
            ProxyState::Buffered { request_queue } => {
                if request_queue.len() > 0 {
                    debug!(
                        buffered_msgs = request_queue.len(),
                        actor_ref = format!("{}", &actor_ref),
                        "emitting buffered messages",
                    );

                    while let Some(mut buffered) = request_queue.pop_front() {
                        buffered.send(actor_ref.clone());
                    }
                }
            }
            _ => {}
        }

        debug!(
            singleton_actor = format!("{}", actor_ref),
            "singleton proxy active - singleton started"
        );
        self.state = ProxyState::Active { actor_ref };
""","""        let active = ProxyState::Active {
            actor_ref: actor_ref.clone(),
        };
        let previous = std::mem::replace(&mut self.state, active);

        if let ProxyState::Buffered { request_queue } = previous {
            for mut buffered in request_queue {
                buffered.send(actor_ref.clone());
            }
        }
"""),
 (P,"""        if self.state.is_active() {
            self.state = ProxyState::Buffered {
                request_queue: VecDeque::new(),
            }
        }
""","""        match self.state {
            ProxyState::Buffered { .. } => {}
            ProxyState::Active { .. } => {
                self.state = ProxyState::Buffered {
                    request_queue: Default::default(),
                }
            }
        }
"""),
 (S,"""        match &mut self.state {
            ProxyState::Buffered { request_queue } => {
                request_queue.push_back(Box::new(message));
                debug!(
                    msg_type = M::type_name(),
                    buffered_msgs = request_queue.len(),
                    "singleton proxy buffered message",
                );
            }

            ProxyState::Active { actor_ref } => {
                message.deliver(actor_ref.clone());
                debug!(msg_type = M::type_name(), "singleton proxy sent message");
            }
        }
""","""        let request_queue = match &mut self.state {
            ProxyState::Active { actor_ref } => {
                message.deliver(actor_ref.clone());
                return;
            }
            ProxyState::Buffered { request_queue } => request_queue,
        };

        let buffered: Box<dyn Buffered<A>> = Box::new(message);
        request_queue.push_back(buffered);
"""),
 (S,"""            let res = actor.send(message).await;
            if let Some(result_channel) = result_channel {
                let _ = result_channel.send(res);
            }
""","""            let res = actor.send(message).await;
            result_channel.map(|channel| channel.send(res));
"""),
 (O,"""        let (tx, rx) = oneshot::channel();
        if let Err(e) = self.proxy.notify(Deliver::new(message, Some(tx))) {
            return Err(e);
        }

        rx.await
            .unwrap_or(Err(ActorRefErr::ResultChannelClosed))
""","""        let (tx, rx) = oneshot::channel();
        self.proxy.notify(Deliver::new(message, Some(tx)))?;

        match rx.await {
            Ok(result) => result,
            Err(_) => Err(ActorRefErr::ResultChannelClosed),
        }
"""),
]),
dict(name="lease",e=[
 (L,"""        if let State::Stopping {
            lease_requested_by, ..
        } = &mut self.state
        {
            // the lease is granted when the singleton has stopped
            *lease_requested_by = message.source_node_id;
        } else if !self.state.is_running() {
            debug!(
                source_node_id = message.source_node_id,
                "received RequestLease"
            );

            self.grant_lease(message.source_node_id, ctx).await;
        } else {
            debug!(
                node_id = self.node_id,
                singleton = F::Actor::type_name(),
                "singleton already running, stopping",
            );

            self.begin_stopping(message.source_node_id, ctx).await;
        }
""","""        let node_id = message.source_node_id;
        match &mut self.state {
            State::Stopping { lease_requested_by, .. } => *lease_requested_by = node_id,
            State::Running { .. } | State::Starting { .. } => self.begin_stopping(node_id, ctx).await,
            State::Joining { .. } | State::Idle => self.grant_lease(node_id, ctx).await,
        }
"""),
 (L,"""        if self.managers.len() == 0 {
            self.on_all_managers_acknowledged(ctx).await;
            return;
        }

        let request = RequestLease {
            source_node_id: self.node_id,
        };

        let manager_count = self.managers.len();
        debug!(
            source_node_id = self.node_id,
            manager_count = manager_count,
            "requesting lease"
        );
        self.notify_managers(request, ctx).await;
""","""        if self.managers.is_empty() {
            self.on_all_managers_acknowledged(ctx).await;
        } else {
            let source_node_id = self.node_id;
            self.notify_managers(RequestLease { source_node_id }, ctx)
                .await;
        }
"""),
 (L,"""        match &mut self.state {
            State::Joining {
                acknowledgement_pending,
            } => {
                debug!(
                    target_node_id = node_id,
                    "manager still joining, buffering acknowledgement until `MemberUp` received"
                );
                acknowledgement_pending.replace(node_id);
            }

            _ => {
                self.notify_manager(
                    node_id,
                    LeaseAck {
                        source_node_id: self.node_id,
                    },
                    ctx,
                )
                .await;
            }
        }
""","""        if let State::Joining {
            acknowledgement_pending,
        } = &mut self.state
        {
            *acknowledgement_pending = Some(node_id);
            return;
        }

        let ack = LeaseAck {
            source_node_id: self.node_id,
        };
        self.notify_manager(node_id, ack, ctx).await;
"""),
 (L,"""        match &mut self.state {
            State::Starting { acknowledged_nodes } if self.managers.contains_key(&node_id) => {
                acknowledged_nodes.insert(node_id);

                info!(
                    source_node_id = node_id,
                    total_acknowledgements = acknowledged_nodes.len(),
                    "received LeaseAck",
                );

                // TODO: Can we do it with a quorum rather than *all managers*?
                if acknowledged_nodes.len() == self.managers.len() {
                    self.on_all_managers_acknowledged(ctx).await;
                }
            }

            state => {
                debug!(
                    source_node_id = node_id,
                    node_id = self.node_id,
                    state = format!("{:?}", state),
                    "received LeaseAck but it was not expected"
                );
            }
        }
""","""        if !self.managers.contains_key(&node_id) {
            return;
        }

        let all_acknowledged = if let State::Starting { acknowledged_nodes } = &mut self.state {
            acknowledged_nodes.insert(node_id);
            self.managers.len() == acknowledged_nodes.len()
        } else {
            false
        };

        if all_acknowledged {
            self.on_all_managers_acknowledged(ctx).await;
        }
"""),
 (T,"""        async move {
            match state.into_actor(Some(actor_id), &sys).await {
                Ok(actor_ref) => ActorStartResult::Started(actor_ref),
                Err(e) => ActorStartResult::Failed(e),
            }
        }
        .pipe_to(manager_ref.into());
""","""        let start = async move {
            state
                .into_actor(Some(actor_id), &sys)
                .await
                .map_or_else(ActorStartResult::Failed, ActorStartResult::Started)
        };

        start.pipe_to(manager_ref.into());
"""),
 (T,"""                match &self.state {
                    State::Starting { .. } => {
                        debug!("singleton actor started");
                    }
                    _ => {
                        warn!("Invalid state, expected `Starting`");
                    }
                }

                self.state = State::Running {
                    actor_ref: actor_ref.clone(),
                };

                let _ = self
                    .proxy
                    .notify(proxy::SingletonStarted::new(actor_ref.into()));
""","""                let started = proxy::SingletonStarted::new(actor_ref.clone().into());
                self.state = State::Running { actor_ref };
                let _ = self.proxy.notify(started);
"""),
]),
dict(name="manager",e=[
 (M,"""        for manager in self.managers.values() {
            self.notify(message.clone(), &manager, ctx).await;
        }
""","""        for (_node_id, manager) in &self.managers {
            self.notify(message.clone(), manager, ctx).await;
        }
"""),
 (M,"""        let res = manager.notify(message.clone()).await;
        if res.is_err() {
            let msg = message.clone();
            let self_ref = self.actor_ref(ctx);
            let _ = self_ref.scheduled_notify::<Notify<M>>(
                Notify::<M>(manager.node_id().unwrap(), msg),
                Duration::from_secs(2),
            );
        }
""","""        if let Err(_e) = manager.notify(message.clone()).await {
            let retry = Notify(manager.node_id().unwrap(), message);
            let delay = Duration::from_secs(2);
            let _ = self.actor_ref(ctx).scheduled_notify::<Notify<M>>(retry, delay);
        }
"""),
 (M,"""        let actor_ref = self.state.get_actor();
        let actor_ref = match actor_ref {
            Some(actor_ref) => actor_ref,
            None => return,
        };

        let stopping_ref = actor_ref.clone();
        async move {
            let _ = stopping_ref.stop().await;
            ActorStopped
        }
        .pipe_to(self.actor_ref(ctx).into());

        let _ = self.proxy.notify(proxy::SingletonStopping);
        self.notify_managers(
            SingletonStopped {
                source_node_id: self.node_id,
            },
            ctx,
        )
        .await;

        self.state = State::Stopping {
            actor_ref,
            lease_requested_by: node_id,
        };
""","""        if let Some(actor_ref) = self.state.get_actor() {
            self.state = State::Stopping {
                actor_ref: actor_ref.clone(),
                lease_requested_by: node_id,
            };

            let stop = async move {
                let _ = actor_ref.stop().await;
                ActorStopped
            };
            stop.pipe_to(self.actor_ref(ctx).into());

            let _ = self.proxy.notify(proxy::SingletonStopping);

            let stopped = SingletonStopped {
                source_node_id: self.node_id,
            };
            self.notify_managers(stopped, ctx).await;
        }
"""),
 (M,"""        if id != &self.singleton_actor_id {
            return;
        }

        match &self.state {
            State::Running { .. } => {
                if !ctx.system().is_terminated() {
                    // TODO: restart actor
                }
            }

            State::Stopping {
                lease_requested_by, ..
            } => {
                self.grant_lease(*lease_requested_by, ctx).await;
                self.state = State::Idle;
            }

            _ => {}
        }
""","""        let is_singleton = id == &self.singleton_actor_id;
        let requested_by = match &self.state {
            State::Stopping {
                lease_requested_by, ..
            } if is_singleton => Some(*lease_requested_by),
            _ => None,
        };

        if let Some(node_id) = requested_by {
            self.state = State::Idle;
            self.grant_lease(node_id, ctx).await;
        }
"""),
 (M,"""                    for node in nodes {
                        if node.id == self.node_id || !self.selector.includes(node.as_ref()) {
                            continue;
                        }

                        self.managers.insert(
                            node.id,
                            RemoteActorRef::new(
                                format!("{}-{}", &self.manager_actor_id, node.id).to_actor_id(),
                                node.id,
                                sys.clone(),
                            )
                            .into(),
                        );
                    }

                    match mem::replace(&mut self.state, State::Idle) {
                        State::Joining {
                            acknowledgement_pending: Some(node_id),
                        } => {
                            self.notify_manager(
                                node_id,
                                LeaseAck {
                                    source_node_id: self.node_id,
                                },
                                ctx,
                            )
                            .await;
                        }
                        _ => {}
                    }

                    if leader == &self.node_id {
                        self.begin_starting(ctx).await;
                    }
""","""                    for node in nodes.iter() {
                        if node.id != self.node_id && self.selector.includes(node.as_ref()) {
                            let manager = self.manager_ref(node.id, sys);
                            self.managers.insert(node.id, manager);
                        }
                    }

                    let pending = match &mut self.state {
                        State::Joining {
                            acknowledgement_pending,
                        } => acknowledgement_pending.take(),
                        _ => None,
                    };
                    self.state = State::Idle;

                    if let Some(node_id) = pending {
                        self.grant_lease(node_id, ctx).await;
                    }

                    if *leader == self.node_id {
                        self.begin_starting(ctx).await;
                    }
"""),
 (M,"""                        let mut entry = self.managers.entry(node.id);
                        if let Entry::Vacant(mut entry) = entry {
                            let remote_ref: ActorRef<Manager<F>> = RemoteActorRef::new(
                                format!("{}-{}", &self.manager_actor_id, node.id).to_actor_id(),
                                node.id,
                                sys.clone(),
                            )
                            .into();

                            match &self.state {
                                State::Starting { .. } => {
                                    let _ = remote_ref
                                        .notify(RequestLease {
                                            source_node_id: self.node_id,
                                        })
                                        .await;
                                }
                                State::Running { .. } => {
                                    let _ = remote_ref
                                        .notify(SingletonStarted {
                                            source_node_id: self.node_id,
                                        })
                                        .await;
                                }

                                _ => {}
                            }

                            entry.insert(remote_ref);
                        }
""","""                        if self.managers.contains_key(&node.id) {
                            return;
                        }

                        let source_node_id = self.node_id;
                        let remote_ref = self.manager_ref(node.id, sys);
                        self.managers.insert(node.id, remote_ref.clone());

                        if let State::Starting { .. } = &self.state {
                            let _ = remote_ref.notify(RequestLease { source_node_id }).await;
                        } else if let State::Running { .. } = &self.state {
                            let _ = remote_ref.notify(SingletonStarted { source_node_id }).await;
                        }
"""),
 (M,"""                    if !self.state.is_joining() {
                        if let State::Starting { acknowledged_nodes } = &mut self.state {
                            acknowledged_nodes.remove(&node.id);

                            if acknowledged_nodes.len() == self.managers.len() {
                                self.on_all_managers_acknowledged(ctx).await;
                            }
                        }
                    }
""","""                    let outstanding = match &mut self.state {
                        State::Starting { acknowledged_nodes } => {
                            acknowledged_nodes.remove(&node.id);
                            Some(acknowledged_nodes.len())
                        }
                        _ => None,
                    };

                    if outstanding == Some(self.managers.len()) {
                        self.on_all_managers_acknowledged(ctx).await;
                    }
"""),
 (M,"""    pub async fn begin_starting(&mut self""","""    fn manager_ref(&self, node_id: NodeId, sys: &RemoteActorSystem) -> ActorRef<Self> {
        let manager_id = format!("{}-{}", &self.manager_actor_id, node_id).to_actor_id();
        RemoteActorRef::new(manager_id, node_id, sys.clone()).into()
    }

    pub async fn begin_starting(&mut self"""),
]),
]
