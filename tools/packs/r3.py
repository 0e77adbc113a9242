V="coerce/src/remote/net/server/mod.rs";T="coerce/src/remote/net/server/session/store.rs";S="coerce/src/remote/net/server/session/mod.rs";H="coerce/src/remote/heartbeat/mod.rs";N="coerce/src/remote/net/mod.rs"
PK=[
dict(name="server",e=[
 (V,"""    loop {
        match accept(&listener, cancellation_token.clone()).await {
            Some(Ok((stream, addr))) => {
                let remote_server_config = remote_server_config.clone();

                session_count += 1;
                let session_id = session_count;
                trace!("client accepted {}, session_id={}", addr, session_id);

                let session = session_store
                    .send(NewSession(RemoteSession::new(
                        session_id,
                        addr,
                        stream,
                        remote_server_config,
                    )))
                    .await;

                if let Err(e) = session {
                    error!(
                        "error creating session actor (session_id={}, addr={}), error: {:?}",
                        session_id, addr, e
                    );
                }
            }
            Some(Err(e)) => error!("error accepting client: {:?}", e),
            None => break,
        }
    }
""","""    while let Some(accepted) = accept(&listener, cancellation_token.clone()).await {
        let (stream, addr) = match accepted {
            Ok(accepted) => accepted,
            Err(e) => {
                error!("error accepting client: {:?}", e);
                continue;
            }
        };
        session_count += 1;
        let session =
            RemoteSession::new(session_count, addr, stream, remote_server_config.clone());
        if let Err(e) = session_store.send(NewSession(session)).await {
            error!("error creating session actor error: {:?}", e);
        }
    }
"""),
 (T,"""        let session_id = message.0.id;
        let session = message.0;

        let session_actor = ctx
            .spawn(
                format!("session-{}", session_id.to_string()).into_actor_id(),
                session,
            )
            .await
            .expect("unable to create session actor");
""","""        let NewSession(session) = message;
        let session_id = session.id;
        let actor_id = format!("session-{}", session_id).into_actor_id();
        let session_actor = match ctx.spawn(actor_id, session).await {
            Ok(session_actor) => session_actor,
            Err(e) => panic!("unable to create session actor: {:?}", e),
        };
"""),
 (T,"""        match self.sessions.get(&message.0) {
            Some(session) => {
                trace!("writing to session {}", &message.0);
                if let Err(e) = session.notify(message) {
                    error!("error while notifying session of write operation: {}", e);
                }
            }
            None => {
                warn!("attempted to write to session that couldn't be found");
            }
        }""","""        let session = match self.sessions.get(&message.0).cloned() {
            Some(session) => session,
            None => return,
        };
        let _ = session.notify(message);"""),
 (N,"""    let mut reader = read;
    while let Some(res) = reader.next().await {
        match res {
            Ok(res) => match R::Message::read_from_bytes(res.to_vec()) {
                Some(msg) => {
                    receiver.on_receive(msg, &system).await;
                    if receiver.should_close() {
                        break;
                    }
                }
                None => {
                    // TODO: either pass the buffer into here or more context, this is pretty useless at the moment..
                    receiver.on_deserialisation_failed();
                }
            },
            Err(e) => {
                receiver.on_stream_lost(e);
                break;
            }
        }
    }
""","""    let mut reader = read;
    loop {
        let frame = match reader.next().await {
            None => break,
            Some(Err(e)) => {
                receiver.on_stream_lost(e);
                break;
            }
            Some(Ok(frame)) => frame,
        };
        let Some(msg) = R::Message::read_from_bytes(frame.to_vec()) else {
            receiver.on_deserialisation_failed();
            continue;
        };
        receiver.on_receive(msg, &system).await;
        if receiver.should_close() {
            break;
        }
    }
"""),
]),
dict(name="session",e=[
 (S,"""        if let Some(read) = &mut self.read {
            if !validate_session_token(ctx, log, &system, read).await {
                ctx.stop(None);
                return;
            }
        }

        let peers = system
            .get_nodes()
            .await
            .into_iter()
            .map(|node| node.into())
            .collect::<Vec<RemoteNodeProto>>();
""","""        let authenticated = match self.read.as_mut() {
            Some(read) => validate_session_token(ctx, log, &system, read).await,
            None => true,
        };
        if !authenticated {
            ctx.stop(None);
            return;
        }

        let mut peers: Vec<RemoteNodeProto> = Vec::new();
        for node in system.get_nodes().await {
            peers.push(node.into());
        }
"""),
 (S,"""    let bytes = read.next().await;
    if let Some(Ok(bytes)) = bytes {
        match SessionEvent::read_from_bytes(bytes.to_vec()) {
            Some(SessionEvent::Identify(identify)) => {
                let token = identify.token;
                let token_valid = system
                    .config()
                    .security()
                    .client_authentication()
                    .validate_token(token.as_str());

                if !token_valid {
                    error!(
                        ctx = log.as_value(),
                        "invalid token received, disconnecting session({})",
                        ctx.id(),
                    );
                } else {
                    info!(
                        ctx = log.as_value(),
                        "token validated - connection accepted",
                    );

                    return true;
                }
            }

            value => {
                error!(
                    ctx = log.as_value(),
                    "initial payload invalid, expected SessionEvent::Identify, disconnecting session({}), value={:?}",
                    ctx.id(), value
                );
            }
        }
    } else {
        error!(
            ctx = log.as_value(),
            "unable to read initial authentication payload"
        );
    }

    false
}""","""    let bytes = match read.next().await {
        Some(Ok(bytes)) => bytes,
        _ => {
            error!("unable to read initial authentication payload");
            return false;
        }
    };
    let event = SessionEvent::read_from_bytes(bytes.to_vec());
    if let Some(SessionEvent::Identify(identify)) = event {
        let auth = system.config().security().client_authentication();
        auth.validate_token(&identify.token)
    } else {
        error!("initial payload invalid");
        false
    }
}"""),
 (S,"""        match message.write_to_bytes() {
            Some(msg) => {
                trace!("message encoded");
                if self.write.send(Bytes::from(msg)).await.is_ok() {
                    trace!("message sent");
                } else {
                    error!("failed to send message");
                }
            }
            None => {
                warn!("failed to encode message");
            }
        }""","""        let Some(encoded) = message.write_to_bytes() else {
            warn!("failed to encode message");
            return;
        };
        if let Err(e) = self.write.send(Bytes::from(encoded)).await {
            error!("failed to send message {}", e);
        }"""),
 (S,"""                if ping.system_terminated {
                    let _ = sys.heartbeat().notify(NodeTerminated(ping.node_id));

                    debug!(
                        "Notified registry - node_id={} is terminated (session_id={})",
                        &ping.node_id, &self.session_id
                    );
                    self.close().await;
                } else {
                    trace!("ping received, sending pong");
                    self.session
                        .send(SessionWrite(
                            self.session_id,
                            ClientEvent::Pong(PongEvent {
                                message_id: ping.message_id,
                                ..Default::default()
                            }),
                        ))
                        .await
                        .expect("send session write");
                }""","""                if !ping.system_terminated {
                    let pong = PongEvent {
                        message_id: ping.message_id,
                        ..Default::default()
                    };
                    let write = SessionWrite(self.session_id, ClientEvent::Pong(pong));
                    self.session.send(write).await.expect("send session write");
                    return;
                }
                let _ = sys.heartbeat().notify(NodeTerminated(ping.node_id));
                self.should_close = true;"""),
 (S,"""                match sys.pop_request(Uuid::from_str(&res.message_id).unwrap()) {
                    Some(res_tx) => {
                        let _ = res_tx.send(RemoteResponse::Ok(res.result));
                    }
                    None => {
                        warn!(
                            "node_tag={}, node_id={}, received unknown request result (id={})",
                            sys.node_tag(),
                            sys.node_id(),
                            res.message_id
                        );
                    }
                }""","""                respond(sys, &res.message_id, RemoteResponse::Ok(res.result));"""),
 (S,"""                let e = err.error.unwrap().into();
                match sys.pop_request(Uuid::from_str(&err.message_id).unwrap()) {
                    Some(res_tx) => {
                        let _ = res_tx.send(RemoteResponse::Err(e));
                    }
                    None => {
                        warn!(
                            "node_tag={}, node_id={}, received unknown request err (id={})",
                            sys.node_tag(),
                            sys.node_id(),
                            e
                        );
                    }
                }""","""                let e = err.error.unwrap().into();
                respond(sys, &err.message_id, RemoteResponse::Err(e));"""),
 (S,"""async fn session_handshake(""","""fn respond(sys: &RemoteActorSystem, message_id: &str, response: RemoteResponse) {
    if let Some(res_tx) = sys.pop_request(Uuid::from_str(message_id).unwrap()) {
        let _ = res_tx.send(response);
    }
}

async fn session_handshake("""),
]),
dict(name="sessfn",e=[
 (S,"""    let nodes = handshake
        .nodes
        .into_iter()
        .filter(|n| n.node_id != self_id)
        .map(|n| {
            let started_at = n.node_started_at.into_option().map(timestamp_to_datetime);

            let addr =
                if server_config.override_incoming_node_addr && n.node_id == handshake.node_id {
                    let host = session_addr.ip();
                    info!("parsing addr={}", &n.addr);
                    let port = n.addr.split(":").last().unwrap();
                    format!("{}:{}", host, port)
                } else {
                    n.addr
                };

            let attributes: NodeAttributes = n
                .attributes
                .into_iter()
                .map(|(k, v)| (k.into(), v.into()))
                .collect();
            RemoteNode::new(n.node_id, addr, n.tag, started_at, attributes.into())
        })
        .collect();
""","""    let mut nodes = Vec::with_capacity(handshake.nodes.len());
    for n in handshake.nodes {
        if n.node_id == self_id {
            continue;
        }
        let started_at = n.node_started_at.into_option().map(timestamp_to_datetime);
        let is_peer = n.node_id == handshake.node_id;
        let addr = if is_peer && server_config.override_incoming_node_addr {
            let port = n.addr.split(":").last().unwrap();
            format!("{}:{}", session_addr.ip(), port)
        } else {
            n.addr
        };
        let mut attributes = NodeAttributes::new();
        for (k, v) in n.attributes {
            attributes.insert(k.into(), v.into());
        }
        nodes.push(RemoteNode::new(
            n.node_id,
            addr,
            n.tag,
            started_at,
            attributes.into(),
        ));
    }
"""),
 (S,"""    match ctx
        .handle_message(
            msg.handler_type.as_str(),
            actor_id.clone(),
            msg.message.as_slice(),
        )
        .await
    {
        Ok(buf) => {
            if msg.requires_response {
                send_result(msg.message_id.parse().unwrap(), buf, session_id, session).await;
            }
        }
        Err(e) => {
            error!("[node={}] failed to handle message (handler_type={}, target_actor_id={}), error={:?}", ctx.node_id(), &msg.handler_type, &actor_id, e);
            let _ = ctx
                .notify_rpc_err(msg.message_id.parse().unwrap(), e, msg.origin_node_id)
                .await;
        }
    }""","""    let message_id: Uuid = msg.message_id.parse().unwrap();
    let result = ctx
        .handle_message(&msg.handler_type, actor_id, &msg.message)
        .await;
    let buf = match result {
        Err(e) => {
            error!("failed to handle message, error={:?}", e);
            ctx.notify_rpc_err(message_id, e, msg.origin_node_id).await;
            return;
        }
        Ok(buf) => buf,
    };
    if msg.requires_response {
        send_result(message_id, buf, session_id, session).await;
    }"""),
 (S,"""    match response.write_to_bytes() {
        Ok(buf) => send_result(msg_id, buf, session_id, session).await,
        Err(_) => {
            error!("failed to handle message, todo: send err");
        }
    }""","""    if let Ok(buf) = response.write_to_bytes() {
        send_result(msg_id, buf, session_id, session).await;
    } else {
        error!("failed to handle message, todo: send err");
    }"""),
 (S,"""    let response = ActorAddress {
        actor_id: id.to_string(),
        node_id: MessageField::from_option(node_id.map(|n| UInt64Value::from(n))),
        ..ActorAddress::default()
    };
""","""    let mut response = ActorAddress::default();
    response.actor_id = id.to_string();
    if let Some(n) = node_id {
        response.node_id = MessageField::some(UInt64Value::from(n));
    }
"""),
 (S,"""    let msg_id = msg.message_id.clone();
    let actor_id = if msg.actor_id.is_empty() {
        None
    } else {
        Some(msg.actor_id.into_actor_id())
    };
""","""    let msg_id = msg.message_id.clone();
    let actor_id = Some(msg.actor_id)
        .filter(|id| !id.is_empty())
        .map(|id| id.into_actor_id());
"""),
 (S,"""    match ctx
        .handle_create_actor(actor_id, msg.actor_type, msg.recipe)
        .await
    {
        Ok(buf) => send_result(msg_id.parse().unwrap(), buf.to_vec(), session_id, session).await,
        Err(e) => {
            error!(
                "failed to create actor (message_id={}), error={:?}",
                &msg_id, e
            );
            send_err(
                msg_id.parse().unwrap(),
                ActorRefErr::ActorUnavailable,
                session_id,
                session,
            )
            .await
        }
    }""","""    let msg_id: Uuid = msg_id.parse().unwrap();
    let created = ctx
        .handle_create_actor(actor_id, msg.actor_type, msg.recipe)
        .await;
    if let Ok(buf) = created {
        send_result(msg_id, buf, session_id, session).await
    } else {
        send_err(msg_id, ActorRefErr::ActorUnavailable, session_id, session).await
    }"""),
 (S,"""    if session.send(SessionWrite(session_id, event)).await.is_ok() {
        trace!("sent result successfully");
    } else {
        error!("failed to send result");
    }
}
""","""    write_event(session_id, session, event).await
}

async fn write_event(session_id: i64, session: LocalActorRef<RemoteSession>, event: ClientEvent) {
    let written = session.send(SessionWrite(session_id, event)).await;
    if let Err(e) = written {
        error!("failed to write event, {}", e);
    }
}
"""),
 (S,"""    if session.send(SessionWrite(session_id, event)).await.is_err() {
        error!("failed to send error");
    }
""","""    write_event(session_id, session, event).await
"""),
]),
dict(name="heart",e=[
 (H,"""        let mut new_leader_id = None;
        let mut updates = vec![];

        for node in nodes {
            if node.id == current_node {
                let mut node = node;
                node.status = NodeStatus::Healthy;
                node.last_heartbeat = Some(Utc::now());
                updates.push(node);

                continue;
            }

            let node_id = node.id;
            updates.push(update_node(
                current_node,
                node,
                self.node_pings.get(&node_id).map(|r| r.1.clone()),
                &self.config,
            ));
        }
""","""        let mut updates = Vec::with_capacity(nodes.len());
        for mut node in nodes {
            let updated = if node.id == current_node {
                node.last_heartbeat = Some(Utc::now());
                node.status = NodeStatus::Healthy;
                node
            } else {
                let ping = self.node_pings.get(&node.id).map(|NodePing(_, r)| r.clone());
                update_node(current_node, node, ping, &self.config)
            };
            updates.push(updated);
        }
"""),
 (H,"""        updates.sort_by(|a, b| {
            match Ord::cmp(
                &a.node_started_at.unwrap_or(DateTime::<Utc>::MIN_UTC),
                &b.node_started_at.unwrap_or(DateTime::<Utc>::MIN_UTC),
            ) {
                Ordering::Equal => Ord::cmp(&a.id, &b.id),
                ordering => ordering,
            }
        });

        if self.last_heartbeat.is_some() {
            let oldest_healthy_node = updates.iter().filter(|n| n.status.is_healthy()).next();

            match oldest_healthy_node {
                None => {}
                Some(oldest_healthy_node) => {
                    let current_leader_id = system.current_leader();
                    if Some(oldest_healthy_node.id) != system.current_leader() {
                        info!(
                            new_leader_node_id = oldest_healthy_node.id,
                            previous_leader_node_id = current_leader_id,
                            "New cluster leader",
                        );

                        new_leader_id = Some(oldest_healthy_node.id)
                    }
                }
            }
        }
""","""        updates.sort_by(|a, b| {
            let a_started = a.node_started_at.unwrap_or(DateTime::<Utc>::MIN_UTC);
            let b_started = b.node_started_at.unwrap_or(DateTime::<Utc>::MIN_UTC);
            a_started.cmp(&b_started).then_with(|| a.id.cmp(&b.id))
        });

        let mut new_leader_id = None;
        if self.last_heartbeat.is_some() {
            if let Some(oldest) = updates.iter().find(|n| n.status.is_healthy()) {
                if system.current_leader() != Some(oldest.id) {
                    new_leader_id = Some(oldest.id);
                }
            }
        }
"""),
 (H,"""        while let Some(on_leader_changed_cb) = self.on_next_leader_changed.pop_front() {
            let _ = on_leader_changed_cb.send(node_id);
        }""","""        for callback in self.on_next_leader_changed.drain(..) {
            let _ = callback.send(node_id);
        }"""),
 (H,"""    match &ping {
        None => {}
        Some(ping) => match ping {
            PingResult::Ok(_pong, ping_latency, pong_received_at) => {
                node.last_heartbeat = Some(*pong_received_at);
                node.ping_latency = Some(*ping_latency);
            }
            PingResult::Timeout | PingResult::Disconnected | PingResult::Err => {
                node.ping_latency = None;
            }
        },
    }
""","""    if let Some(PingResult::Ok(_, ping_latency, pong_received_at)) = &ping {
        node.ping_latency = Some(*ping_latency);
        node.last_heartbeat = Some(*pong_received_at);
    } else if ping.is_some() {
        node.ping_latency = None;
    }
"""),
 (H,"""            if time_since_ping >= config.terminated_node_heartbeat_timeout {
                error!(
                    "[node={}] node_id={} has not pinged in {} millis, marking node as terminated",
                    node_id,
                    peer_node_id,
                    time_since_ping.as_millis()
                );

                NodeStatus::Terminated
            } else if time_since_ping >= config.unhealthy_node_heartbeat_timeout {
                warn!(
                    "[node={}] node_id={} hasn't responded to a ping in {} millis, marking as unhealthy",
                    node_id,
                    peer_node_id,
                    time_since_ping.as_millis()
                );

                NodeStatus::Unhealthy
            } else if ping_latency > config.unhealthy_node_heartbeat_timeout {
                warn!(
                    "[node={}] node_id={} took {}ms to respond to ping, marking as unhealthy - time_since_ping={} millis",
                    node_id,
                    peer_node_id,
                    ping_latency.as_millis(),
                    time_since_ping.as_millis()
                );
                NodeStatus::Unhealthy
            } else {""","""            if time_since_ping >= config.terminated_node_heartbeat_timeout {
                return NodeStatus::Terminated;
            }
            let limit = config.unhealthy_node_heartbeat_timeout;
            if time_since_ping >= limit || ping_latency > limit {
                NodeStatus::Unhealthy
            } else {"""),
 (H,"""            let terminated = last_heartbeat.map_or(true, |h| {
                h.add(chrono::Duration::from_std(config.terminated_node_heartbeat_timeout).unwrap())
                    < Utc::now()
            });

            if terminated {""","""            let grace =
                chrono::Duration::from_std(config.terminated_node_heartbeat_timeout).unwrap();
            let terminated = match last_heartbeat {
                Some(heartbeat) => heartbeat.add(grace) < Utc::now(),
                None => true,
            };

            if terminated {"""),
 (H,"""        let node_id = message.0;
        if let Some(system) = &self.system {
            let _ = system.registry().send(message).await;
        }

        self.node_pings.remove(&node_id);
        self.handle(HeartbeatTick, ctx).await;""","""        let NodeTerminated(node_id) = message;
        self.node_pings.remove(&node_id);

        if let Some(system) = self.system.clone() {
            let _ = system.registry().send(NodeTerminated(node_id)).await;
        }
        self.handle(HeartbeatTick, ctx).await;"""),
]),
dict(name="begin",e=[
 ("coerce/src/remote/net/client/connect.rs","""                write_bytes(
                    Bytes::from(
                        SessionEvent::Handshake(proto::SessionHandshake {
                            node_id,
                            node_tag,
                            token: vec![],
                            client_type: EnumOrUnknown::new(self.client_type.into()),
                            trace_id: message.request_id.to_string(),
                            nodes: message
                                .seed_nodes
                                .into_iter()
                                .map(|node| node.into())
                                .collect(),
                            ..proto::SessionHandshake::default()
                        })
                        .write_to_bytes()
                        .unwrap(),
                    ),
                    &mut connection.write,
                )
                .await
                .expect("write handshake");
""","""                let mut handshake = proto::SessionHandshake::default();
                handshake.node_id = node_id;
                handshake.node_tag = node_tag;
                handshake.client_type = EnumOrUnknown::new(self.client_type.into());
                handshake.trace_id = message.request_id.to_string();
                for node in message.seed_nodes {
                    handshake.nodes.push(node.into());
                }
                let bytes = SessionEvent::Handshake(handshake).write_to_bytes().unwrap();
                if let Err(e) = write_bytes(Bytes::from(bytes), &mut connection.write).await {
                    panic!("write handshake: {}", e);
                }
"""),
]),
]
