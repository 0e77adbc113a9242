F="coerce/src/remote/actor_ref.rs";Q="coerce/src/remote/system/rpc.rs";A="coerce/src/remote/system/actor.rs";H="coerce/src/remote/handler.rs"
PK=[
dict(name="aref",e=[
 (F,"""        match res_rx.await {
            Ok(RemoteResponse::Ok(res)) => match Msg::read_remote_result(res) {
                Ok(res) => Ok(res),
                Err(e) => {
                    error!("failed to decode result");
                    Err(ActorRefErr::Deserialisation(e))
                }
            },
            Err(e) => {
                error!("failed to receive result, e={}", e);
                Err(ActorRefErr::ResultChannelClosed)
            }
            Ok(RemoteResponse::Err(e)) => Err(e),
        }
    }
""","""        let response = res_rx.await.map_err(|e| {
            error!("failed to receive result, e={}", e);
            ActorRefErr::ResultChannelClosed
        })?;
        response.into_result().and_then(Self::decode_result::<Msg>)
    }

    fn decode_result<Msg: Message>(bytes: Vec<u8>) -> Result<Msg::Result, ActorRefErr> {
        Msg::read_remote_result(bytes).map_err(ActorRefErr::Deserialisation)
    }
"""),
 (F,"""        let id = Uuid::new_v4();

        let event = self.create_request(msg, String::new(), id, true)?;

        let (res_tx, res_rx) = oneshot::channel();
        self.system.push_request(id, res_tx);
""","""        let (res_tx, res_rx) = oneshot::channel();
        let id = Uuid::new_v4();
        let event = match self.create_request(msg, String::new(), id, true) {
            Ok(event) => event,
            Err(e) => return Err(e),
        };

        self.system.push_request(id, res_tx);
"""),
 (F,"""        self.system.create_header::<A, Msg>(&self.id).map(|header| {
            let handler_type = header.handler_type;
            let actor_id = header.actor_id.to_string();
            let origin_node_id = self.system.node_id();
            SessionEvent::NotifyActor(MessageRequest {
                message_id: id.to_string(),
                handler_type,
                actor_id,
                trace_id,
                message,
                requires_response,
                origin_node_id,
                ..Default::default()
            })
        })""","""        let header = self.system.create_header::<A, Msg>(&self.id)?;
        let mut request = MessageRequest::default();
        request.message_id = id.to_string();
        request.handler_type = header.handler_type;
        request.actor_id = header.actor_id.to_string();
        request.trace_id = trace_id;
        request.message = message;
        request.requires_response = requires_response;
        request.origin_node_id = self.system.node_id();
        Ok(SessionEvent::NotifyActor(request))"""),
 (F,"""        let message = match msg {
            Envelope::Remote(b) => b,
            _ => return Err(ActorRefErr::Serialisation(MessageWrapErr::NotTransmittable)),
        };
""","""        let Envelope::Remote(message) = msg else {
            return Err(ActorRefErr::Serialisation(MessageWrapErr::NotTransmittable));
        };
"""),
]),
dict(name="rpc",e=[
 (Q,"""        match self.node_rpc_raw(message_id, event, node_id).await {
            Ok(res) => match T::parse_from_bytes(&res) {
                Ok(res) => {
                    trace!("message_id={}, received result", &message_id);
                    Ok(res)
                }
                Err(_) => {
                    error!(
                        "message_id={}, failed to decode result from node_id={}",
                        &message_id, &node_id
                    );
                    Err(NodeRpcErr::Serialisation)
                }
            },
            Err(e) => {
                error!("failed to receive result, e={:?}", e);
                Err(NodeRpcErr::ReceiveFailed)
            }
        }""","""        let res = self
            .node_rpc_raw(message_id, event, node_id)
            .await
            .map_err(|_| NodeRpcErr::ReceiveFailed)?;
        T::parse_from_bytes(&res).map_err(|_| NodeRpcErr::Serialisation)"""),
 (Q,"""        match self.node_rpc_raw(message_id, event, node_id).await {
            Ok(res) => match T::read_from_bytes(res) {
                Some(res) => {
                    trace!("message_id={}, received result", &message_id);
                    Ok(res)
                }
                None => {
                    error!(
                        "message_id={}, failed to decode result from node_id={}",
                        &message_id, &node_id
                    );
                    Err(NodeRpcErr::Serialisation)
                }
            },
            _ => {
                error!("failed to receive result");
                Err(NodeRpcErr::ReceiveFailed)
            }
        }""","""        let raw = self.node_rpc_raw(message_id, event, node_id).await;
        if let Ok(bytes) = raw {
            T::read_from_bytes(bytes).ok_or(NodeRpcErr::Serialisation)
        } else {
            error!("failed to receive result");
            Err(NodeRpcErr::ReceiveFailed)
        }"""),
 (Q,"""        match res_rx.await {
            Ok(RemoteResponse::Ok(res)) => Ok(res),
            Ok(RemoteResponse::Err(res)) => Err(NodeRpcErr::Err(res)),
            Err(e) => {
                error!("failed to receive result, e={}", e);
                Err(NodeRpcErr::ReceiveFailed)
            }
        }""","""        if let Ok(response) = res_rx.await {
            response.into_result().map_err(NodeRpcErr::Err)
        } else {
            error!("failed to receive result");
            Err(NodeRpcErr::ReceiveFailed)
        }"""),
 (Q,"""        if node_id == self.node_id() {
            let result_sender = self.pop_request(request_id);
            if let Some(result_sender) = result_sender {
                let _ = result_sender.send(RemoteResponse::Ok(result));
            }
        } else {""","""        if node_id == self.node_id() {
            self.complete(request_id, RemoteResponse::Ok(result));
        } else {"""),
 (Q,"""        if node_id == self.node_id() {
            let result_sender = self.pop_request(request_id);
            if let Some(result_sender) = result_sender {
                let _ = result_sender.send(RemoteResponse::Err(error));
            }
        } else {
            let message_id""","""        if self.node_id() == node_id {
            self.complete(request_id, RemoteResponse::Err(error));
            return;
        }
        {
            let message_id"""),
 (Q,"""    pub async fn handle_message(""","""    fn complete(&self, request_id: Uuid, response: RemoteResponse) {
        match self.pop_request(request_id) {
            Some(sender) => {
                if sender.send(response).is_err() {
                    trace!("nobody waits");
                }
            }
            None => trace!("unknown request"),
        }
    }

    pub async fn handle_message("""),
 (Q,"""        let handler = self.inner.config.message_handler(identifier);

        if let Some(handler) = handler {
            let (tx, rx) = oneshot::channel();
            handler.handle_attempt(actor_id, buffer, tx, 1).await;

            match rx.await {
                Ok(res) => res,
                Err(_e) => Err(ActorRefErr::ResultChannelClosed),
            }
        } else {
            Err(ActorRefErr::NotSupported {
                actor_id,
                message_type: identifier.to_string(),
                actor_type: String::default(),
            })
        }""","""        let handler = match self.inner.config.message_handler(identifier) {
            Some(handler) => handler,
            None => {
                return Err(ActorRefErr::NotSupported {
                    actor_id,
                    message_type: identifier.to_string(),
                    actor_type: String::default(),
                })
            }
        };
        let (tx, rx) = oneshot::channel();
        handler.handle_attempt(actor_id, buffer, tx, 1).await;
        rx.await
            .unwrap_or_else(|_| Err(ActorRefErr::ResultChannelClosed))"""),
 (Q,"""        let mut handler = self.inner.handler_ref.lock();
        handler.pop_request(id).map(|r| r.res_tx)""","""        let request = self.inner.handler_ref.lock().pop_request(id);
        match request {
            Some(RemoteRequest { res_tx }) => Some(res_tx),
            None => None,
        }"""),
]),
dict(name="sysactor",e=[
 (A,"""        match self.locate_actor_node(actor_id.clone()).await {
            Some(node_id) => {
                if node_id == self.inner.node_id {
                    self.inner
                        .inner
                        .get_tracked_actor(actor_id)
                        .await
                        .map(ActorRef::from)
                } else {
                    Some(ActorRef::from(RemoteActorRef::new(
                        actor_id,
                        node_id,
                        self.clone(),
                    )))
                }
            }
            None => None,
        }""","""        let node_id = self.locate_actor_node(actor_id.clone()).await?;
        if node_id != self.node_id() {
            let remote = RemoteActorRef::<A>::new(actor_id, node_id, self.clone());
            return Some(ActorRef::from(remote));
        }
        let local: crate::actor::LocalActorRef<A> =
            self.actor_system().get_tracked_actor(actor_id).await?;
        Some(local.into())"""),
 (A,"""        match self
            .inner
            .registry_ref
            .send(GetActorNode {
                actor_id: actor_id.clone(),
                sender: tx,
            })
            .await
        {
            Ok(_) => {
                // TODO: configurable timeouts (?)
                match tokio::time::timeout(tokio::time::Duration::from_secs(5), rx).await {
                    Ok(Ok(res)) => {
                        trace!(
                            "received actor node (current_node={}, actor_id={}, actor_node={:?})",
                            self.node_tag(),
                            &actor_id,
                            &res
                        );
                        res
                    }
                    Ok(Err(e)) => {
                        error!("error receiving result, {}", e);
                        None
                    }
                    Err(e) => {
                        error!("error receiving result, {}", e);
                        None
                    }
                }
            }
            Err(_e) => {
                error!("error sending message");
                None
            }
        }""","""        let lookup = GetActorNode {
            sender: tx,
            actor_id: actor_id.clone(),
        };
        if self.inner.registry_ref.send(lookup).await.is_err() {
            error!("error sending message");
            return None;
        }
        let timeout = tokio::time::Duration::from_secs(5);
        let located = tokio::time::timeout(timeout, rx).await.ok()?;
        located.unwrap_or(None)"""),
 (A,"""        let id = id.map_or_else(new_actor_id, |id| id);
        let node = node.map_or_else(|| self_id, |n| n);
        let actor_type: String = F::Actor::type_name().into();

        let recipe = recipe.write_to_bytes();
        if recipe.is_none() {
            return Err(RemoteActorErr::RecipeSerializationErr);
        }

        let recipe = recipe.unwrap();
        let message_id = Uuid::new_v4();

        let mut actor_addr = None;
        if node == self_id {
            let local_create = self
                .handle_create_actor(Some(id.clone()), actor_type, recipe)
                .await;

            match local_create {
                Ok(actor_addr_bytes) => {
                    actor_addr = Some(ActorAddress::parse_from_bytes(&actor_addr_bytes).unwrap());
                }

                Err(e) => return Err(e),
            }
        } else {""","""        let id = id.unwrap_or_else(new_actor_id);
        let node = node.unwrap_or(self_id);
        let actor_type = F::Actor::type_name().to_string();

        let recipe = recipe
            .write_to_bytes()
            .ok_or(RemoteActorErr::RecipeSerializationErr)?;
        let message_id = Uuid::new_v4();

        let actor_addr: Option<ActorAddress>;
        if node == self_id {
            let bytes = self
                .handle_create_actor(Some(id), actor_type, recipe)
                .await?;
            actor_addr = Some(ActorAddress::parse_from_bytes(&bytes).unwrap());
        } else {"""),
 (A,"""            match self
                .node_rpc_proto::<ActorAddress>(
                    message_id,
                    SessionEvent::CreateActor(message),
                    node,
                )
                .await
            {
                Ok(address) => actor_addr = Some(address),
                Err(e) => return Err(RemoteActorErr::NodeErr(e)),
            }""","""            let address: ActorAddress = self
                .node_rpc_proto(message_id, SessionEvent::CreateActor(message), node)
                .await
                .map_err(RemoteActorErr::NodeErr)?;
            actor_addr = Some(address);"""),
 (A,"""        match actor_addr {
            Some(actor_address) => {
                let actor_ref = RemoteActorRef::<F::Actor>::new(
                    actor_address.actor_id.into_actor_id(),
                    actor_address.node_id.value,
                    self.clone(),
                );

                Ok(ActorRef::from(actor_ref))
            }
            None => Err(RemoteActorErr::ActorUnavailable),
        }""","""        actor_addr
            .map(|address| {
                ActorRef::from(RemoteActorRef::<F::Actor>::new(
                    address.actor_id.into_actor_id(),
                    address.node_id.value,
                    self.clone(),
                ))
            })
            .ok_or(RemoteActorErr::ActorUnavailable)"""),
 (A,"""        let (tx, rx) = oneshot::channel();

        if let Some(actor_id) = &actor_id {
            if let Some(node_id) = self.locate_actor_node(actor_id.clone()).await {
                warn!("actor {} already exists on node: {}", &actor_id, &node_id);
                return Err(RemoteActorErr::ActorExists);
            }
        }

        let actor_id = actor_id.map_or_else(new_actor_id, |id| id);
""","""        let actor_id = match actor_id {
            Some(id) => {
                if self.locate_actor_node(id.clone()).await.is_some() {
                    return Err(RemoteActorErr::ActorExists);
                }
                id
            }
            None => new_actor_id(),
        };
"""),
 (A,"""        let handler = self.inner.config.actor_handler(&actor_type);

        if let Some(handler) = handler {
            let actor_ref = handler
                .create(
                    Some(actor_id.clone()),
                    &raw_recipe,
                    None,
                    Some(self.actor_system()),
                )
                .await;

            match actor_ref {
                Ok(actor_ref) => {
                    let result = ActorAddress {
                        actor_id: actor_ref.actor_id().to_string(),
                        node_id: MessageField::some(UInt64Value::from(self.node_id())),
                        ..ActorAddress::default()
                    };

                    trace!("sending created actor ref");
                    send_proto_result(result, tx);
                }
                Err(_) => return Err(RemoteActorErr::ActorUnavailable),
            }
        } else {
            trace!("No handler found with the type: {}", &actor_type);
            return Err(RemoteActorErr::ActorNotSupported);
        }

        trace!("waiting for actor to start");

        match rx.await {
            Ok(res) => {
                trace!("actor started (actor_id={})", &actor_id);

                Ok(res)
            }
            Err(_e) => Err(RemoteActorErr::ActorUnavailable),
        }""","""        let handler = self
            .inner
            .config
            .actor_handler(&actor_type)
            .ok_or(RemoteActorErr::ActorNotSupported)?;

        let actor_ref = handler
            .create(Some(actor_id), &raw_recipe, None, Some(self.actor_system()))
            .await
            .map_err(|_| RemoteActorErr::ActorUnavailable)?;

        let address = ActorAddress {
            actor_id: actor_ref.actor_id().to_string(),
            node_id: MessageField::some(UInt64Value::from(self.node_id())),
            ..ActorAddress::default()
        };
        address
            .write_to_bytes()
            .map_err(|_| RemoteActorErr::ActorUnavailable)"""),
 (A,"""        let header = self
            .handler_name::<A, M>()
            .map(|handler_type| RemoteMessageHeader {
                actor_id: id.clone(),
                handler_type,
            });

        match header {
            Some(header) => Ok(header),
            None => {
                let message_type = M::type_name();
                let actor_type = A::type_name();

                error!(
                    "no handler registered actor_type={}, message_type={}",
                    &actor_type, message_type
                );

                Err(ActorRefErr::NotSupported {
                    actor_id: id.clone(),
                    message_type: message_type.to_string(),
                    actor_type: actor_type.to_string(),
                })
            }
        }""","""        if let Some(handler_type) = self.handler_name::<A, M>() {
            return Ok(RemoteMessageHeader {
                handler_type,
                actor_id: id.clone(),
            });
        }
        Err(ActorRefErr::NotSupported {
            actor_id: id.clone(),
            message_type: M::type_name().to_string(),
            actor_type: A::type_name().to_string(),
        })"""),
]),
dict(name="handler",e=[
 (H,"""        let recipe = F::Recipe::read_from_bytes(recipe);
        if let Some(recipe) = recipe {
            if let Ok(state) = self.factory.create(recipe).await {
                let actor_ref = if let Some(parent_ref) = parent_ref {
                    system
                        .expect("ActorSystem ref")
                        .new_supervised_actor(actor_id, state, parent_ref)
                        .await
                } else {
                    system
                        .expect(
                            "ActorSystem ref should be provided if there is no `supervisor_ctx`",
                        )
                        .new_actor(actor_id, state, Tracked)
                        .await
                };

                actor_ref.map(|a| BoxedActorRef::from(a))
            } else {
                Err(ActorRefErr::ActorUnavailable)
            }
        } else {
            Err(ActorRefErr::ActorUnavailable)
        }""","""        let recipe = F::Recipe::read_from_bytes(recipe).ok_or(ActorRefErr::ActorUnavailable)?;
        let state = self
            .factory
            .create(recipe)
            .await
            .map_err(|_| ActorRefErr::ActorUnavailable)?;
        let system = system.expect("ActorSystem ref");
        let actor_ref = match parent_ref {
            Some(parent) => system.new_supervised_actor(actor_id, state, parent).await?,
            None => system.new_actor(actor_id, state, Tracked).await?,
        };
        Ok(actor_ref.into())"""),
 (H,"""    if let Some(boxed_ref) = ACTOR_REF_CACHE.get(actor_id) {
        let actor_ref = boxed_ref.as_actor();
        if let Some(actor_ref) = actor_ref {
            if actor_ref.is_valid() {
                return Some(actor_ref);
            }
        }
    }

    if let Some(actor_ref) = system.get_tracked_actor::<A>(actor_id.clone()).await {
        ACTOR_REF_CACHE.add(actor_id, BoxedActorRef::from(actor_ref.clone()));

        Some(actor_ref)
    } else {
        None
    }""","""    let cached = ACTOR_REF_CACHE
        .get(actor_id)
        .and_then(|boxed| boxed.as_actor::<A>())
        .filter(|actor_ref| actor_ref.is_valid());
    if cached.is_some() {
        return cached;
    }

    let actor_ref = system.get_tracked_actor::<A>(actor_id.clone()).await?;
    ACTOR_REF_CACHE.add(actor_id, actor_ref.clone().into());
    Some(actor_ref)"""),
 (H,"""                Ok(m) => {
                    let result = actor.send(m).await;
                    if let Ok(result) = result {
                        match M::write_remote_result(result) {
                            Ok(buffer) => {
                                let send_res = res.send(Ok(buffer));
                                if let Err(_) = send_res {
                                    error!("failed to send result back to sender");
                                }
                            }

                            Err(e) => {
                                error!("failed to encode message result");
                                let _ = res.send(Err(ActorRefErr::Serialisation(e)));
                            }
                        }
                    }
                }
""","""                Ok(m) => {
                    if let Ok(result) = actor.send(m).await {
                        let reply =
                            M::write_remote_result(result).map_err(ActorRefErr::Serialisation);
                        if res.send(reply).is_err() {
                            error!("failed to send result back to sender");
                        }
                    }
                }
"""),
 (H,"""            (Some(actor), Ok(message)) => match res {
                Some(res) => {
                    let result = actor
                        .send(message)
                        .await
                        .map(|result| M::write_remote_result(result));
                    match result {
                        Ok(Ok(result)) => {
                            if res.send(Ok(result)).is_err() {
                                error!("failed to send message")
                            } else {
                                trace!(
                                    "handled message (actor_type={}, message_type={})",
                                    &actor_type,
                                    M::type_name()
                                );
                            }
                        }
                        Ok(Err(e)) => {
                            error!("failed to encode message result: {}", &e);
                            let _ = res.send(Err(ActorRefErr::Serialisation(e)));
                        }
                        Err(e) => {
                            error!("failed to send message");
                            let _ = res.send(Err(e));
                        }
                    }
                }
                None => {""","""            (Some(actor), Ok(message)) => match res {
                Some(res) => {
                    let result = match actor.send(message).await {
                        Ok(result) => {
                            M::write_remote_result(result).map_err(|e| ActorRefErr::Serialisation(e))
                        }
                        Err(e) => Err(e),
                    };
                    let _ = res.send(result);
                }
                None => {"""),
 (H,"""    match msg.write_to_bytes() {
        Ok(buffer) => {
            if res.send(buffer).is_err() {
                error!("failed to send message")
            }
        }
        Err(e) => error!("failed to encode message result - {}", e),
    }""","""    if let Ok(buffer) = msg.write_to_bytes() {
        let _ = res.send(buffer);
    } else {
        error!("failed to encode message result");
    }"""),
]),
]
