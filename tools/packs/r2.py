S="coerce/src/remote/net/client/send.rs";V="coerce/src/remote/net/client/receive.rs";G="coerce/src/remote/net/client/ping.rs";C="coerce/src/remote/net/client/connect.rs";M="coerce/src/remote/net/client/mod.rs"
PK=[
dict(name="send",e=[
 (S,"""        while let Some(buffered_message) = self.write_buffer.pop_front() {
            let len = buffered_message.len();
            let bytes = Bytes::from(buffered_message);
            if let Ok(()) = write_bytes(bytes.clone(), &mut connection_state.write).await {
                self.write_buffer_bytes_total -= len;
            } else {
                self.write_buffer.push_front(bytes.to_vec());

                // write failed, no point trying again - break and reconnect/retry later
                break;
            }
        }""","""        loop {
            let buffered_message = match self.write_buffer.pop_front() {
                Some(message) => message,
                None => break,
            };
            let bytes = Bytes::from(buffered_message);
            let written = write_bytes(bytes.clone(), &mut connection_state.write).await;
            if written.is_err() {
                self.write_buffer.push_front(bytes.to_vec());
                return;
            }
            self.write_buffer_bytes_total -= bytes.len();
        }"""),
 (S,"""        if let Some(bytes) = message.write_to_bytes() {
            let mut buffer_message = None;

            let stream_write_error = match &mut self.state.as_mut().unwrap() {
                ClientState::Idle { .. } => {
                    buffer_message = Some(bytes);

                    debug!("attempt to write to addr={} but no connection is established, buffering message (total_buffered={})",
                        &self.addr,
                        self.write_buffer.len()
                    );

                    false
                }

                ClientState::Connected(state) => {
                    let bytes = Bytes::from(bytes);
                    if let Err(e) = write_bytes(bytes.clone(), &mut state.write).await {
                        match e {
                            RemoteClientErr::StreamErr(_e) => {
                                warn!("node {} (addr={}) is unreachable but marked as connected, buffering message (total_buffered={})",
                                    &state.identity.node.id,
                                    &self.addr,
                                    self.write_buffer.len());

                                buffer_message = Some(bytes.to_vec());

                                true
                            }
                            _ => false,
                        }
                    } else {
                        false
                    }
                }

                ClientState::Terminated => true,
            };

            if let Some(message_bytes) = buffer_message {
                self.buffer_message(message_bytes);
            }

            if stream_write_error {
                self.handle(Disconnected, ctx).await;
            }
        } else {
            return Err(RemoteClientErr::Encoding);
        }

        Ok(())""","""        let bytes = message
            .write_to_bytes()
            .ok_or(RemoteClientErr::Encoding)?;

        match self.state.as_mut().unwrap() {
            ClientState::Idle { .. } => {
                self.buffer_message(bytes);
                return Ok(());
            }
            ClientState::Terminated => {}
            ClientState::Connected(state) => {
                let bytes = Bytes::from(bytes);
                match write_bytes(bytes.clone(), &mut state.write).await {
                    Err(RemoteClientErr::StreamErr(_)) => self.buffer_message(bytes.to_vec()),
                    _ => return Ok(()),
                }
            }
        }

        self.handle(Disconnected, ctx).await;
        Ok(())"""),
 (S,"""    match writer.send(bytes).await {
        Ok(()) => Ok(()),
        Err(e) => Err(RemoteClientErr::StreamErr(e)),
    }""","""    writer.send(bytes).await.map_err(RemoteClientErr::StreamErr)"""),
]),
dict(name="receive",e=[
 (V,"""                if let Some(identity_sender) = self.identity_sender.take() {
                    let _ = identity_sender.send(NodeIdentity {
                        node: (&identity).into(),
                        peers: identity.peers.into_iter().map(|n| n.into()).collect(),
                        capabilities: identity
                            .capabilities
                            .map(|capabilities| SystemCapabilities {
                                actors: capabilities.actors.to_vec(),
                                messages: capabilities.messages.to_vec(),
                            })
                            .unwrap_or_else(|| SystemCapabilities::default()),
                    });
                } else {
                    debug!("received `Identity` but the client was already identified");
                }""","""                let identity_sender = match self.identity_sender.take() {
                    Some(sender) => sender,
                    None => {
                        debug!("received `Identity` but the client was already identified");
                        return;
                    }
                };
                let node = RemoteNode::from(&identity);
                let mut peers = Vec::with_capacity(identity.peers.len());
                for peer in identity.peers {
                    peers.push(RemoteNode::from(peer));
                }
                let capabilities = match identity.capabilities.into_option() {
                    Some(capabilities) => SystemCapabilities {
                        actors: capabilities.actors.to_vec(),
                        messages: capabilities.messages.to_vec(),
                    },
                    None => SystemCapabilities::default(),
                };
                let _ = identity_sender.send(NodeIdentity {
                    node,
                    peers,
                    capabilities,
                });"""),
 (V,"""                let known_nodes = msg
                    .nodes
                    .into_iter()
                    .filter(|n| n.node_id != node_id)
                    .map(|n| n.into())
                    .collect();

                if !self
                    .actor_ref
                    .send(HandshakeAcknowledge {
                        node_id,
                        node_tag,
                        node_started_at,
                        known_nodes,
                    })
                    .await
                    .is_ok()
                {
                    warn!("error sending handshake_tx");
                }""","""                let mut known_nodes: Vec<RemoteNode> = vec![];
                for n in msg.nodes {
                    if n.node_id == node_id {
                        continue;
                    }
                    known_nodes.push(n.into());
                }
                let ack = HandshakeAcknowledge {
                    node_id,
                    node_tag,
                    node_started_at,
                    known_nodes,
                };
                if let Err(e) = self.actor_ref.send(ack).await {
                    warn!("error sending handshake_tx {}", e);
                }"""),
 (V,"""                match sys.pop_request(Uuid::from_str(&res.message_id).unwrap()) {
                    Some(res_tx) => {
                        let _ = res_tx.send(RemoteResponse::Ok(res.result));
                    }
                    None => {
                        trace!(
                            "node_tag={}, node_id={}, received unknown request result (id={})",
                            sys.node_tag(),
                            sys.node_id(),
                            res.message_id
                        );
                    }
                }""","""                complete_request(sys, &res.message_id, RemoteResponse::Ok(res.result));"""),
 (V,"""                info!("received client error!");
                match sys.pop_request(Uuid::from_str(&e.message_id).unwrap()) {
                    Some(res_tx) => {
                        let _ = res_tx.send(RemoteResponse::Err(e.error.unwrap().into()));
                    }
                    None => {
                        //                                          :P
                        warn!("received unsolicited pong");
                    }
                }""","""                let request_id = Uuid::from_str(&e.message_id).unwrap();
                if let Some(res_tx) = sys.pop_request(request_id) {
                    let error = e.error.unwrap().into();
                    let _ = res_tx.send(RemoteResponse::Err(error));
                } else {
                    warn!("received unsolicited error");
                }"""),
 (V,"""                match sys.pop_request(Uuid::from_str(&pong.message_id).unwrap()) {
                    Some(res_tx) => {
                        let _ = res_tx.send(RemoteResponse::Ok(
                            PongEvent {
                                message_id: pong.message_id,
                                ..Default::default()
                            }
                            .write_to_bytes()
                            .expect("serialised pong"),
                        ));
                    }
                    None => {
                        //                                          :P
                        warn!("received unsolicited pong");
                    }
                }""","""                let bytes = PongEvent {
                    message_id: pong.message_id.clone(),
                    ..Default::default()
                }
                .write_to_bytes()
                .expect("serialised pong");
                complete_request(sys, &pong.message_id, RemoteResponse::Ok(bytes));"""),
 (V,"""#[async_trait]
impl StreamReceiver for ClientMessageReceiver {""","""fn complete_request(sys: &RemoteActorSystem, message_id: &str, response: RemoteResponse) {
    let id = Uuid::from_str(message_id).unwrap();
    if let Some(res_tx) = sys.pop_request(id) {
        let _ = res_tx.send(response);
    } else {
        trace!("received unknown request result (id={})", id);
    }
}

#[async_trait]
impl StreamReceiver for ClientMessageReceiver {"""),
]),
dict(name="ping",e=[
 (G,"""        let node_id = if let Some(state) = &self.state {
            match state {
                ClientState::Connected(state) => state.identity.node.id,
                _ => {
                    if let Some(node_id) = self.node_id {
                        let _ = heartbeat.notify(NodePing(node_id, PingResult::Disconnected));
                    }

                    let _ = remote.node_discovery().notify(Forget(self.addr.clone()));
                    if let Some(ping_timer) = self.ping_timer.take() {
                        let _ = ping_timer.stop();

                        debug!(
                            "client disconnected (addr={}), stopped ping timer",
                            &self.addr
                        );
                    }

                    return;
                }
            }
        } else {
            trace!(
                "ping tick cancelled, client not connected - client_addr={}",
                &self.addr
            );
            return;
        };
""","""        let node_id = match &self.state {
            Some(ClientState::Connected(state)) => state.identity.node.id,
            Some(_) => {
                let _ = remote.node_discovery().notify(Forget(self.addr.clone()));
                if let Some(node_id) = self.node_id {
                    let _ = heartbeat.notify(NodePing(node_id, PingResult::Disconnected));
                }
                if let Some(ping_timer) = self.ping_timer.take() {
                    let _ = ping_timer.stop();
                }
                return;
            }
            None => return,
        };
"""),
 (G,"""        let write_res = self.write(ping_event, ctx).await;
        if write_res.is_ok() {
            tokio::spawn(async move {
                let timeout = remote.config().heartbeat_config().ping_timeout;
                let ping_result = match tokio::time::timeout(timeout, res_rx).await {
                    Ok(res) => match res {
                        Ok(pong) => match pong {
                            RemoteResponse::Ok(pong_bytes) => {
                                let pong = PongEvent::parse_from_bytes(&pong_bytes).unwrap();
                                let now = Utc::now();

                                PingResult::Ok(pong, ping_start.elapsed(), now)
                            }
                            RemoteResponse::Err(_err_bytes) => PingResult::Err,
                        },
                        Err(_e) => PingResult::Err,
                    },
                    Err(_e) => PingResult::Timeout,
                };
""","""        let write_res = self.write(ping_event, ctx).await;
        if write_res.is_ok() {
            tokio::spawn(async move {
                let timeout = remote.config().heartbeat_config().ping_timeout;
                let ping_result = match tokio::time::timeout(timeout, res_rx).await {
                    Ok(Ok(RemoteResponse::Ok(pong_bytes))) => {
                        let pong = PongEvent::parse_from_bytes(&pong_bytes).unwrap();
                        PingResult::Ok(pong, ping_start.elapsed(), Utc::now())
                    }
                    Ok(_) => PingResult::Err,
                    Err(_) => PingResult::Timeout,
                };
"""),
]),
dict(name="connect",e=[
 (C,"""        match write_bytes(Bytes::from(identify.write_to_bytes().unwrap()), &mut write).await {
            Ok(_) => {}
            Err(e) => {
                error!(
                    ctx = log_ctx.as_value(),
                    "failed to write identify message to begin authentication, error={}", e
                );
                return None;
            }
        };
""","""        let identify = Bytes::from(identify.write_to_bytes().unwrap());
        if write_bytes(identify, &mut write).await.is_err() {
            return None;
        }
"""),
 (C,"""        let identity = match identity_rx.await {
            Ok(identity) => identity,
            Err(_) => {
                warn!(
                    ctx = log_ctx.as_value(),
                    "no identity received (addr={})", &self.addr
                );
                return None;
            }
        };

        Some(ConnectionState {
            identity,
            handshake: HandshakeStatus::None,
            write,
            receive_task,
        })""","""        identity_rx.await.ok().map(|identity| ConnectionState {
            handshake: HandshakeStatus::None,
            identity,
            write,
            receive_task,
        })"""),
 (C,"""        if let Some(state) = &self.state {
            if state.is_connected() {
                return;
            }
        }

        if let Some(connection_state) = self.connect(message, ctx).await {""","""        if matches!(self.state, Some(ClientState::Connected(_))) {
            return;
        }

        if let Some(connection_state) = self.connect(message, ctx).await {"""),
 (C,"""            while let Some(callback) = self.on_identified_callbacks.pop() {
                let _ = callback.send(Some(connection_state.identity.clone()));
            }

            self.node_id = Some(connection_state.identity.node.id);
            self.state = Some(ClientState::Connected(connection_state));
""","""            self.node_id = Some(connection_state.identity.node.id);
            let identity = connection_state.identity.clone();
            self.state = Some(ClientState::Connected(connection_state));
            self.identified(Some(identity));
"""),
 (C,"""            while let Some(callback) = self.on_identified_callbacks.pop() {
                let _ = callback.send(None);
            }

            self.handle(Disconnected, ctx).await;""","""            self.identified(None);
            self.handle(Disconnected, ctx).await;"""),
 (C,"""pub struct Disconnected;
""","""impl RemoteClient {
    fn identified(&mut self, identity: Option<crate::remote::net::client::NodeIdentity>) {
        for callback in self.on_identified_callbacks.drain(..) {
            let _ = callback.send(identity.clone());
        }
    }
}

pub struct Disconnected;
"""),
 (C,"""            &HandshakeStatus::Pending => {
                self.on_handshake_ack_callbacks.push(HandshakeAckCallback {
                    request_id: message.request_id,
                    callback: message.on_handshake_complete,
                });
            }

            _ => {""","""            &HandshakeStatus::Pending => {
                let callback = HandshakeAckCallback {
                    request_id: message.request_id,
                    callback: message.on_handshake_complete,
                };
                self.on_handshake_ack_callbacks.push(callback);
            }

            &HandshakeStatus::None => {"""),
 (C,"""                while let Some(callback) = self.on_handshake_ack_callbacks.pop() {
                    debug!(
                        "ack callback executed (request_id={}, client_addr={})",
                        callback.request_id, &self.addr
                    );

                    let _ = callback.callback.send(());
                }""","""                for waiting in std::mem::take(&mut self.on_handshake_ack_callbacks) {
                    let _ = waiting.callback.send(());
                }"""),
 (C,"""                let connection_attempts = connection_attempts + 1;
                if connection_attempts > 10 {
                    reconnect = false;

                    warn!(
                        addr = &self.addr,
                        connection_attempts = connection_attempts,
                        "client terminating, no longer attempting to re-connect"
                    );

                    ClientState::Terminated
                } else {
                    ClientState::Idle {
                        connection_attempts,
                    }
                }""","""                if connection_attempts >= 10 {
                    reconnect = false;
                    ClientState::Terminated
                } else {
                    ClientState::Idle {
                        connection_attempts: connection_attempts + 1,
                    }
                }"""),
 (C,"""        if reconnect {
            let self_ref = self.actor_ref(ctx);
            tokio::spawn(async move {
                tokio::time::sleep(RECONNECT_DELAY).await;
                let _res = self_ref.send(Connect).await;
            });
        } else {
            let _ = ctx
                .system()
                .remote()
                .client_registry()
                .send(RemoveClient {
                    addr: self.addr.clone(),
                    node_id: self.node_id,
                })
                .await;

            let _ = ctx.boxed_actor_ref().notify_stop();
        }""","""        if !reconnect {
            let removal = RemoveClient {
                node_id: self.node_id,
                addr: self.addr.clone(),
            };
            let registry = ctx.system().remote().client_registry().clone();
            let _ = registry.send(removal).await;
            let _ = ctx.boxed_actor_ref().notify_stop();
            return;
        }

        let client = self.actor_ref(ctx);
        tokio::spawn(async move {
            tokio::time::sleep(RECONNECT_DELAY).await;
            let _ = client.send(Connect).await;
        });"""),
]),
dict(name="cmod",e=[
 (M,"""        match &self.state {
            Some(ClientState::Connected(state)) => {
                let _ = message.callback.send(Some(state.identity.clone()));
            }
            _ => {
                self.on_identified_callbacks.push(message.callback);
            }
        }""","""        if let Some(ClientState::Connected(state)) = &self.state {
            let identity = state.identity.clone();
            let _ = message.callback.send(Some(identity));
        } else {
            self.on_identified_callbacks.push(message.callback);
        }"""),
 (M,"""        if let Err(e) = self.client.notify(Identify { callback: tx }) {
            Err(e)
        } else {
            await_timeout(REMOTE_CLIENT_IDENTIFY_TIMEOUT, rx).await
        }""","""        self.client.notify(Identify { callback: tx })?;
        await_timeout(REMOTE_CLIENT_IDENTIFY_TIMEOUT, rx).await"""),
 (M,"""        for _attempt in 0..REMOTE_CLIENT_HANDSHAKE_MAX_ATTEMPTS {
            match self.handshake_attempt(request_id, seed_nodes.clone()).await {
                Err(ActorRefErr::Timeout { .. }) => {
                    warn!(
                        "handshake request to node (addr={}) timed out",
                        &self.client.actor_id(),
                    );
                }

                result => return result,
            }
        }
""","""        let mut attempts = 0;
        while attempts < REMOTE_CLIENT_HANDSHAKE_MAX_ATTEMPTS {
            attempts += 1;
            let result = self.handshake_attempt(request_id, seed_nodes.clone()).await;
            if let Err(ActorRefErr::Timeout { .. }) = &result {
                continue;
            }
            return result;
        }
"""),
 (M,"""        if let Err(e) = self.client.notify(BeginHandshake {
            request_id,
            seed_nodes: seed_nodes.clone(),
            on_handshake_complete: tx,
        }) {
            Err(e)
        } else {
            await_timeout(REMOTE_CLIENT_HANDSHAKE_TIMEOUT, rx).await
        }""","""        let begin = BeginHandshake {
            request_id,
            seed_nodes,
            on_handshake_complete: tx,
        };
        match self.client.notify(begin) {
            Ok(_) => await_timeout(REMOTE_CLIENT_HANDSHAKE_TIMEOUT, rx).await,
            Err(e) => Err(e),
        }"""),
 (M,"""    match tokio::time::timeout(timeout, rx).await {
        Ok(res) => match res {
            Ok(res) => Ok(res),
            Err(_) => Err(ActorRefErr::ResultChannelClosed),
        },
        Err(_) => Err(ActorRefErr::Timeout {
            time_taken_millis: now.elapsed().as_millis() as u64,
        }),
    }""","""    tokio::time::timeout(timeout, rx)
        .await
        .map_err(|_| ActorRefErr::Timeout {
            time_taken_millis: now.elapsed().as_millis() as u64,
        })?
        .map_err(|_| ActorRefErr::ResultChannelClosed)"""),
 (M,"""        match &mut self.state {
            None => {}
            Some(state) => match state {
                ClientState::Idle { .. } => {}
                ClientState::Connected(connection) => {
                    if ctx.system().is_terminated() {
                        debug!(
                            "system shutdown, notifying node(addr={}, id={:?})",
                            &self.addr, &self.node_id
                        );

                        let ping_event = SessionEvent::Ping(PingEvent {
                            message_id: Uuid::new_v4().to_string(),
                            node_id: ctx.system().remote().node_id(),
                            system_terminated: true,
                            ..PingEvent::default()
                        });

                        let _ = write_bytes(
                            Bytes::from(ping_event.write_to_bytes().unwrap()),
                            &mut connection.write,
                        )
                        .await;
                    }

                    let _res = connection.write.close().await;
                    connection.receive_task.abort();
                }
                ClientState::Terminated { .. } => {}
            },
        }
""","""        if let Some(ClientState::Connected(connection)) = self.state.as_mut() {
            if ctx.system().is_terminated() {
                let mut ping = PingEvent::default();
                ping.message_id = Uuid::new_v4().to_string();
                ping.node_id = ctx.system().remote().node_id();
                ping.system_terminated = true;
                let bytes = SessionEvent::Ping(ping).write_to_bytes().unwrap();
                let _ = write_bytes(Bytes::from(bytes), &mut connection.write).await;
            }

            let _res = connection.write.close().await;
            connection.receive_task.abort();
        }
"""),
]),
]
