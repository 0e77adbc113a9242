RF="coerce/src/actor/refs/mod.rs";ME="coerce/src/actor/message/mod.rs";TI="coerce/src/actor/scheduler/timer.rs";W="coerce/src/actor/worker.rs";B="coerce/src/actor/blocking.rs";WA="coerce/src/actor/watch/watchers.rs";SY="coerce/src/actor/system/mod.rs";D="coerce/src/actor/describe/mod.rs"
PK=[
dict(name="refs",e=[
 (RF,"""        match &self.inner_ref {
            Ref::Local(local_ref) => local_ref.send(msg).await,

            #[cfg(feature = "remote")]
            Ref::Remote(remote_ref) => match msg.as_bytes() {
                Ok(envelope) => remote_ref.send(Envelope::Remote(envelope)).await,
                Err(e) => Err(ActorRefErr::Serialisation(e)),
            },
        }""","""        match &self.inner_ref {
            #[cfg(feature = "remote")]
            Ref::Remote(remote_ref) => {
                let bytes = msg.as_bytes().map_err(ActorRefErr::Serialisation)?;
                remote_ref.send(Envelope::Remote(bytes)).await
            }
            Ref::Local(local_ref) => local_ref.send(msg).await,
        }"""),
 (RF,"""        let (tx, rx) = oneshot::channel();
        match self
            .inner
            .sender
            .send(Box::new(ActorMessage::new(msg, Some(tx))))
        {
            Ok(_) => match rx.await {
                Ok(res) => {
                    trace!(
                        "recv result (msg_type={msg_type} actor_type={actor_type})",
                        msg_type = message_type,
                        actor_type = actor_type
                    );

                    Ok(res)
                }
                Err(_e) => Err(ActorRefErr::ResultChannelClosed),
            },
            Err(_e) => Err(ActorRefErr::InvalidRef),
        }""","""        let (tx, rx) = oneshot::channel();
        self.enqueue(msg, Some(tx))?;
        let result = rx.await.map_err(|_| ActorRefErr::ResultChannelClosed)?;
        trace!(
            "recv result (msg_type={msg_type} actor_type={actor_type})",
            msg_type = message_type,
            actor_type = actor_type
        );
        Ok(result)"""),
 (RF,"""        match self
            .inner
            .sender
            .send(Box::new(ActorMessage::new(msg, Some(result_sender))))
        {
            Ok(_) => Ok(()),
            Err(_) => Err(ActorRefErr::InvalidRef),
        }
    }
""","""        self.enqueue(msg, Some(result_sender))
    }

    fn enqueue<M: Message>(
        &self,
        msg: M,
        result_sender: Option<oneshot::Sender<M::Result>>,
    ) -> Result<(), ActorRefErr>
    where
        A: Handler<M>,
    {
        let message = ActorMessage::new(msg, result_sender);
        if self.inner.sender.send(Box::new(message)).is_err() {
            return Err(ActorRefErr::InvalidRef);
        }
        Ok(())
    }
"""),
 (RF,"""        match self
            .inner
            .sender
            .send(Box::new(ActorMessage::new(msg, None)))
        {
            Ok(_) => Ok(()),
            Err(_e) => Err(ActorRefErr::InvalidRef),
        }""","""        self.inner
            .sender
            .send(Box::new(ActorMessage::new(msg, None)))
            .map_err(|_| ActorRefErr::InvalidRef)"""),
 (RF,"""        let res = self.notify(Stop(Some(tx)));
        if res.is_ok() {
            rx.await.map_err(|_| ActorRefErr::InvalidRef)
        } else {
            res
        }""","""        self.notify(Stop(Some(tx)))?;
        match rx.await {
            Ok(()) => Ok(()),
            Err(_) => Err(ActorRefErr::InvalidRef),
        }"""),
 (RF,"""        self.path == other.path && self.id == other.id""","""        if self.id != other.id {
            return false;
        }
        self.path == other.path"""),
]),
dict(name="msg",e=[
 (ME,"""        match self.sender.take() {
            Some(sender) => match sender.send(result) {
                Ok(_) => trace!("sent result successfully"),
                Err(_e) => warn!("failed to send result"),
            },
            None => {
                trace!("no result consumer, message handling complete");
                return;
            }
        }
    }
}
""","""        if let Some(sender) = self.sender.take() {
            reply(sender, result);
        }
    }
}

fn reply<R>(sender: oneshot::Sender<R>, result: R) {
    if sender.send(result).is_err() {
        warn!("failed to send result");
    }
}
"""),
 (ME,"""        let msg = self.msg.take();
        let result = actor
            .handle(msg.unwrap(), ctx)
            .instrument(self.sender_span.clone())
            .await;
""","""        let span = self.sender_span.clone();
        let msg = match self.msg.take() {
            Some(msg) => msg,
            None => panic!("message already handled"),
        };
        let handling = actor.handle(msg, ctx);
        let result = handling.instrument(span).await;
"""),
 (ME,"""        match envelope {
            Envelope::Local(msg) => Ok(msg),
            Envelope::Remote(bytes) => Self::from_bytes(bytes),
        }""","""        if let Envelope::Remote(bytes) = envelope {
            return Self::from_bytes(bytes);
        }
        match envelope {
            Envelope::Local(msg) => Ok(msg),
            _ => unreachable!(),
        }""") if False else (ME,"""            EnvelopeType::Remote => self.as_bytes().map(Envelope::Remote),""","""            EnvelopeType::Remote => {
                let bytes = self.as_bytes()?;
                Ok(Envelope::Remote(bytes))
            }"""),
 (ME,"""        let message = message;
        let mut func = message.func;

        func(self)""","""        let Exec { mut func, .. } = message;
        let result = func(self);
        result"""),
]),
dict(name="timer",e=[
 (TI,"""        if self.stop.send(true).is_ok() {
            true
        } else {
            false
        }""","""        self.stop.send(true).is_ok()"""),
 (TI,"""    loop {
        // the timer ends once it was stopped, or once its handle was dropped
        if !matches!(stop_rx.try_recv(), Err(TryRecvError::Empty)) {
            break;
        }
""","""    while still_running(&mut stop_rx) {
"""),
 (TI,"""        match mode {
            TimerMode::Notify => {
                if actor.notify(msg.clone()).is_err() {
                    break;
                }
            }
            TimerMode::Send => {
                if actor.send(msg.clone()).await.is_err() {
                    break;
                }

                interval.reset();
            }
        }
""","""        let delivered = match mode {
            TimerMode::Notify => actor.notify(msg.clone()).is_ok(),
            TimerMode::Send => {
                let delivered = actor.send(msg.clone()).await.is_ok();
                if delivered {
                    interval.reset();
                }
                delivered
            }
        };
        if !delivered {
            break;
        }
"""),
 (TI,"async fn timer_loop","""fn still_running(stop_rx: &mut oneshot::Receiver<bool>) -> bool {
    match stop_rx.try_recv() {
        Err(TryRecvError::Empty) => true,
        Ok(_) | Err(TryRecvError::Closed) => false,
    }
}

async fn timer_loop"""),
 (TI,"""    let start = if tick_immediately {
        Instant::now()
    } else {
        Instant::now().add(tick)
    };
""","""    let now = Instant::now();
    let start = match tick_immediately {
        true => now,
        false => now + tick,
    };
"""),
]),
dict(name="worker",e=[
 (W,"""        for i in 0..count {
            workers.push_back(
                system
                    .new_actor(
                        format!("{}-{}", name_prefix, i + 1),
                        state.clone(),
                        Anonymous,
                    )
                    .await?,
            );
        }
""","""        let mut n = 1;
        while n <= count {
            let name = format!("{}-{}", name_prefix, n);
            let worker = system.new_actor(name, state.clone(), Anonymous).await?;
            workers.push_back(worker);
            n += 1;
        }
"""),
 (W,"""        if let Err(e) = self.send(message).await {
            Err(e)
        } else {
            match res.await {
                Ok(res) => Ok(res),
                Err(e) => {
                    error!("error receiving result, {}", e);
                    Err(ActorRefErr::ResultChannelClosed)
                }
            }
        }""","""        self.send(message).await?;
        res.await.map_err(|e| {
            error!("error receiving result, {}", e);
            ActorRefErr::ResultChannelClosed
        })"""),
 (W,"""        if let Some(worker) = self.workers.pop_front() {
            let worker_ref = worker.clone();

            self.workers.push_back(worker);

            // main worker acts as a scheduler, don't block it by handling the task, dispatch it off
            tokio::spawn(async move {
                match worker_ref.send(message.message).await {
                    Ok(res) => {
                        if message.res_tx.send(res).is_ok() {
                            trace!("sent result successfully");
                        } else {
                            error!("failed to send result, receiver dropped?");
                        }
                    }
                    Err(_e) => error!("error sending msg"),
                }
            });
        }
    }
}""","""        let worker = match self.workers.pop_front() {
            Some(worker) => worker,
            None => return,
        };
        self.workers.push_back(worker.clone());
        tokio::spawn(run_on(worker, message));
    }
}

async fn run_on<W: Actor + Clone + Handler<M>, M: Message>(
    worker: LocalActorRef<W>,
    message: WorkerMessage<M>,
) {
    let WorkerMessage { message, res_tx } = message;
    match worker.send(message).await {
        Ok(res) => {
            let _ = res_tx.send(res);
        }
        Err(_e) => error!("error sending msg"),
    }
}"""),
]),
dict(name="blocking",e=[
 (B,"""            Ok(_) => match rx.blocking_recv() {
                Ok(res) => {
                    trace!(
                        "recv result (msg_type={msg_type} actor_type={actor_type})",
                        msg_type = message_type,
                        actor_type = actor_type
                    );

                    Ok(res)
                }
                Err(_e) => Err(ActorRefErr::ResultChannelClosed),
            },
            Err(_e) => Err(ActorRefErr::InvalidRef),
        }""","""            Err(_e) => Err(ActorRefErr::InvalidRef),
            Ok(()) => rx
                .blocking_recv()
                .map_err(|_| ActorRefErr::ResultChannelClosed),
        }"""),
 (B,"""        if res.is_ok() {
            rx.blocking_recv().map_err(|_| ActorRefErr::InvalidRef)
        } else {
            res
        }""","""        if res.is_err() {
            return res;
        }
        rx.blocking_recv().or(Err(ActorRefErr::InvalidRef))"""),
 (B,"""        match rx.blocking_recv() {
            Ok(_) => Ok(actor_ref),
            Err(_e) => {
                error!(
                    actor_id = id.as_ref(),
                    actor_type = A::type_name(),
                    "actor not started",
                );
                Err(ActorRefErr::ActorStartFailed)
            }
        }""","""        if rx.blocking_recv().is_err() {
            error!(
                actor_id = id.as_ref(),
                actor_type = A::type_name(),
                "actor not started",
            );
            return Err(ActorRefErr::ActorStartFailed);
        }

        Ok(actor_ref)"""),
 (WA,"""        self.watchers.insert(watcher.actor_id().to_owned(), watcher);""","""        let id = watcher.actor_id().clone();
        let _ = self.watchers.insert(id, watcher);"""),
 (WA,"""        self.watchers.remove(&actor_id);""","""        if self.watchers.contains_key(&actor_id) {
            self.watchers.remove(&actor_id);
        }"""),
]),
dict(name="system",e=[
 (SY,"""        if actor_type.is_tracked() {
            let _ = self
                .core
                .scheduler
                .send(RegisterActor {
                    id: id.clone(),
                    actor_ref: actor_ref.clone(),
                })
                .await;
        }

        actor_ref
    }
""","""        self.register_tracked(actor_type, &id, &actor_ref).await;

        actor_ref
    }

    async fn register_tracked<A: Actor>(
        &self,
        actor_type: ActorType,
        id: &ActorId,
        actor_ref: &LocalActorRef<A>,
    ) {
        if !actor_type.is_tracked() {
            return;
        }
        let registration = RegisterActor {
            id: id.clone(),
            actor_ref: actor_ref.clone(),
        };
        if let Err(e) = self.scheduler().send(registration).await {
            error!("registration failed {}", e);
        }
    }
"""),
 (SY,"""        if actor_type.is_tracked() {
            let _ = self
                .core
                .scheduler
                .send(RegisterActor {
                    id: id.clone(),
                    actor_ref: actor_ref.clone(),
                })
                .await;
        }

        match rx.await {
            Ok(_) => Ok(actor_ref),
            Err(_e) => {
                error!(
                    "actor not started, actor_id={}, type={}",
                    &id,
                    A::type_name()
                );
                Err(ActorRefErr::ActorStartFailed)
            }
        }""","""        self.register_tracked(actor_type, &id, &actor_ref).await;
        await_start(rx, &id, actor_ref).await"""),
 (SY,"""        match rx.await {
            Ok(_) => Ok(actor_ref),
            Err(_e) => {
                error!(
                    "actor not started, actor_id={}, type={}",
                    &id,
                    A::type_name()
                );
                Err(ActorRefErr::ActorStartFailed)
            }
        }""","""        await_start(rx, &id, actor_ref).await"""),
 (SY,"""        match self.core.scheduler.send(GetActor::new(id)).await {
            Ok(a) => a,
            Err(_) => None,
        }
    }
}
""","""        let request = GetActor::new(id);
        self.core.scheduler.send(request).await.ok().flatten()
    }
}

async fn await_start<A: Actor>(
    started: tokio::sync::oneshot::Receiver<()>,
    id: &ActorId,
    actor_ref: LocalActorRef<A>,
) -> Result<LocalActorRef<A>, ActorRefErr> {
    if let Err(_) = started.await {
        error!("actor not started, actor_id={}, type={}", id, A::type_name());
        return Err(ActorRefErr::ActorStartFailed);
    }
    Ok(actor_ref)
}
"""),
]),
dict(name="describe",e=[
 (D,"""    actors
        .filter(|a| describe_attached_children || !a.is_attached())
        .take(max_children.map_or_else(|| usize::MAX, |n| n))
        .map(|n| n.actor_ref().clone())
        .collect()""","""    let limit = max_children.unwrap_or(usize::MAX);
    let mut describable = vec![];
    for child in actors {
        if describable.len() >= limit {
            break;
        }
        if child.is_attached() && !describe_attached_children {
            continue;
        }
        describable.push(child.actor_ref().clone());
    }
    describable"""),
 (D,"""                    let description = tokio::time::timeout(timeout, rx).await;
                    if let Ok(description) = description {
                        match description {
                            Ok(description) => DescribeResult::Ok({
                                let mut description = description;
                                description.time_taken = Some(start.elapsed());
                                description
                            }),
                            Err(_) => {
                                DescribeResult::from_err(ActorRefErr::ResultChannelClosed, &actor)
                            }
                        }
                    } else {
                        DescribeResult::from_timeout_err(&actor)
                    }
""","""                    match tokio::time::timeout(timeout, rx).await {
                        Err(_) => DescribeResult::from_timeout_err(&actor),
                        Ok(Err(_)) => {
                            DescribeResult::from_err(ActorRefErr::ResultChannelClosed, &actor)
                        }
                        Ok(Ok(mut description)) => {
                            description.time_taken = Some(start.elapsed());
                            DescribeResult::Ok(description)
                        }
                    }
"""),
 (D,"""            let mut actors: Vec<BoxedActorRef> = self.actors.values().cloned().collect();
            actors.push(ctx.boxed_actor_ref());
            actors""","""            let mut actors: Vec<BoxedActorRef> = Vec::with_capacity(self.actors.len() + 1);
            actors.extend(self.actors.values().cloned());
            actors.push(ctx.boxed_actor_ref());
            actors"""),
 (D,"""            if let Some(max_depth) = message.options.max_depth {
                if max_depth < next_depth {
                    let _ = sender.send(description);
                    return;
                }
            }
""","""            let too_deep = match message.options.max_depth {
                Some(max_depth) => next_depth > max_depth,
                None => false,
            };
            if too_deep {
                log_and_send(sender, description, start);
                return;
            }
"""),
]),
]
