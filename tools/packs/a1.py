L="coerce/src/actor/lifecycle.rs";SC="coerce/src/actor/scheduler/mod.rs";SU="coerce/src/actor/supervised.rs";C="coerce/src/actor/context.rs"
PK=[
dict(name="life",e=[
 (L,"        if ctx.get_status() == &Stopping {\n            return actor_stopped","        if matches!(ctx.get_status(), Stopping) {\n            return actor_stopped"),
 (L,"        if let Some(on_start) = on_start.take() {\n            let _ = on_start.send(());\n        }\n","        signal_started(on_start.take());\n"),
 (L,"        while let Some(mut msg) = receiver.recv().await {\n","        loop {\n            let mut msg = match receiver.recv().await {\n                Some(msg) => msg,\n                None => break,\n            };\n"),
 (L,"            if ctx.get_status() == &Stopping {\n                break;\n            }\n","            let stop_requested = *ctx.get_status() == Stopping;\n            if stop_requested {\n                break;\n            }\n"),
 (L,"""    if actor_type.is_tracked() {
        if let Some(system) = system.take() {
            if !system.is_terminated() {
                trace!(actor_id = actor_id.as_ref(), "de-registering actor");

                system
                    .scheduler()
                    .send(DeregisterActor(actor_id.clone()))
                    .await
                    .expect("de-register actor");
            }
        }
    }

    if let Some(on_stopped_handlers) = ctx.take_on_stopped_handlers() {
        for sender in on_stopped_handlers {
            let _ = sender.send(());
        }
    }

    if let Some(watchers) = ctx.take_watchers() {
        let actor_terminated = ActorTerminated::from(ctx.boxed_actor_ref());
        for watcher in watchers.iter() {
            let _ = watcher.notify(actor_terminated.clone());
        }
    }
}
""","""    deregister(actor_type, system.take(), actor_id).await;
    signal_stopped(ctx);
    notify_watchers(ctx);
}

fn signal_started(on_start: Option<Sender<()>>) {
    on_start.map(|s| s.send(()).ok());
}

async fn deregister(actor_type: ActorType, system: Option<ActorSystem>, actor_id: &ActorId) {
    if actor_type.is_anon() {
        return;
    }

    let system = match system {
        Some(system) if !system.is_terminated() => system,
        _ => return,
    };

    let scheduler = system.scheduler();
    let result = scheduler.send(DeregisterActor(actor_id.clone())).await;
    if let Err(e) = result {
        panic!("de-register actor: {:?}", e);
    }
}

fn signal_stopped(ctx: &mut ActorContext) {
    ctx.take_on_stopped_handlers()
        .into_iter()
        .flatten()
        .for_each(|sender| {
            sender.send(()).ok();
        });
}

fn notify_watchers(ctx: &mut ActorContext) {
    let watchers = match ctx.take_watchers() {
        Some(watchers) => watchers,
        None => return,
    };
    let terminated = ActorTerminated::from(ctx.boxed_actor_ref());
    watchers.iter().for_each(|w| {
        if w.notify(terminated.clone()).is_err() {
            trace!("watcher has gone");
        }
    });
}
"""),
]),
dict(name="sched",e=[
 (SC,"""            futures::future::join_all(self.actors.iter().map(|(id, actor)| async move {
                debug!(actor_id = actor.actor_id().as_ref(), "stopping actor");
                (id.clone(), actor.stop().await)
            }))
            .await;
""","""            {
                let mut stops = Vec::with_capacity(self.actors.len());
                for (id, actor) in &self.actors {
                    stops.push(stop_one(id, actor));
                }
                futures::future::join_all(stops).await
            };
"""),
 (SC,"#[derive(Debug, Clone, Copy)]\npub enum ActorType","async fn stop_one(id: &ActorId, actor: &BoxedActorRef) -> (ActorId, Result<actor::ActorRefErr0, crate::actor::ActorRefErr>) {\n    todo!()\n}\n\n#[derive(Debug, Clone, Copy)]\npub enum ActorType") if False else (SC,"#[derive(Debug, Clone, Copy)]\npub enum ActorType","async fn stop_one(\n    id: &ActorId,\n    actor: &BoxedActorRef,\n) -> (ActorId, Result<(), crate::actor::ActorRefErr>) {\n    let result = actor.stop().await.map(|_| ());\n    (id.clone(), result)\n}\n\n#[derive(Debug, Clone, Copy)]\npub enum ActorType"),
 (SC,"""        match &self {
            &ActorType::Tracked => true,
            _ => false,
        }""","""        matches!(self, ActorType::Tracked)"""),
 (SC,"""        let actor_id = message.id;
        let previous_actor = self
            .actors
            .insert(actor_id.clone(), BoxedActorRef::from(message.actor_ref));

        if let Some(previous_actor) = previous_actor {""","""        let RegisterActor { id: actor_id, actor_ref } = message;
        let boxed: BoxedActorRef = actor_ref.into();
        if let Some(previous_actor) = self.actors.insert(actor_id.clone(), boxed) {"""),
 (SC,"""        if let Some(_a) = self.actors.remove(&msg.0) {
            debug!("de-registered actor {}", msg.0);
        } else {
            warn!("actor {} not found to de-register", msg.0);
        }""","""        let DeregisterActor(id) = msg;
        match self.actors.remove(&id) {
            None => warn!("actor {} not found to de-register", id),
            Some(_) => debug!("de-registered actor {}", id),
        }"""),
 (SC,"""            .get(&message.id)
            .and_then(|actor| actor.as_actor());
""","""            .get(&message.id);
        let actor_ref = match actor_ref {
            Some(actor) => actor.as_actor::<A>(),
            None => None,
        };
"""),
 (SC,"""    let actor_ref = LocalActorRef::new(id, tx, path);
    let cloned_ref = actor_ref.clone();

    tokio::spawn(async move {
        ActorLoop::run(
            actor, actor_type, rx, on_start, cloned_ref, parent_ref, system,
        )
        .await;
    });
""","""    let actor_ref = LocalActorRef::new(id, tx, path);
    let task = ActorLoop::run(
        actor,
        actor_type,
        rx,
        on_start,
        actor_ref.clone(),
        parent_ref,
        system,
    );
    tokio::spawn(task);
"""),
]),
dict(name="superv",e=[
 (SU,"        if let Some(_) = self.children.get(&id) {\n            return Err(ActorRefErr::AlreadyExists(id));\n        }\n\n        let (tx, rx)","        if self.children.contains_key(&id) {\n            return Err(ActorRefErr::AlreadyExists(id));\n        }\n\n        let (tx, rx)"),
 (SU,"""        match rx.await {
            Ok(_) => Ok(actor_ref),
            Err(e) => {
                error!("error spawning supervised actor (id={}) {}", &id, e);
                Err(ActorRefErr::ActorStartFailed)
            }
        }""","""        rx.await.map(|_| actor_ref).map_err(|e| {
            error!("error spawning supervised actor (id={}) {}", &id, e);
            ActorRefErr::ActorStartFailed
        })"""),
 (SU,"""        self.children
            .insert(boxed_ref.actor_id().clone(), ChildRef::spawned(boxed_ref))
    }""","""        let id = boxed_ref.actor_id().clone();
        self.track(id, ChildRef::spawned(boxed_ref))
    }

    fn track(&mut self, id: ActorId, child: ChildRef) -> Option<ChildRef> {
        self.children.insert(id, child)
    }"""),
 (SU,"""        self.children
            .insert(id.clone(), ChildRef::spawned(actor_ref.clone().into()));

        Ok(actor_ref)""","""        self.track(id, ChildRef::spawned(actor_ref.clone().into()));

        Ok(actor_ref)"""),
 (SU,"""        let stop_results = futures::future::join_all(
            self.children
                .iter()
                .map(|(id, actor)| async move { (id.clone(), actor.actor_ref.stop().await) }),
        )
        .await;

        for (actor_id, stop_result) in stop_results {
            match stop_result {
                Ok(_) => {
                    trace!(actor_id = actor_id.as_ref(), "actor stopped");
                    self.children.remove(&actor_id);
                }
                Err(e) => match e {
                    ActorRefErr::InvalidRef => {},
                    e => {
                        warn!(actor_id = actor_id.as_ref(), error = format!("{}", e), "failed to stop child");
                    }
                },
            }
        }
""","""        let stops: Vec<_> = self
            .children
            .values()
            .map(|child| async move {
                let id = child.actor_ref().actor_id().clone();
                let result = child.actor_ref().stop().await;
                (id, result)
            })
            .collect();
        let mut stop_results = futures::future::join_all(stops).await.into_iter();

        while let Some((actor_id, stop_result)) = stop_results.next() {
            if let Err(e) = stop_result {
                if !matches!(e, ActorRefErr::InvalidRef) {
                    warn!(actor_id = actor_id.as_ref(), error = format!("{}", e), "failed to stop child");
                }
                continue;
            }
            self.children.remove(&actor_id);
        }
"""),
 (SU,"""        if let Some(_) = self.children.remove(id) {
            trace!(actor_id = id.as_ref(), "child actor stopped");
        } else {
            trace!(actor_id = id.as_ref(), "unknown child actor stopped");
        }""","""        let known = self.children.remove(id).is_some();
        trace!(actor_id = id.as_ref(), known = known, "child actor stopped");"""),
 (SU,"""        if let Some(supervised) = ctx.supervised_mut() {
            supervised.on_child_stopped(&message.0).await;
        }
""","""        let Terminated(child) = &message;
        match ctx.supervised_mut() {
            Some(s) => s.on_child_stopped(child).await,
            None => {}
        }
"""),
]),
dict(name="ctx",e=[
 (C,"""        let supervised = {
            if self.supervised.is_none() {
                self.supervised =
                    Some(Supervised::new(self.id().clone(), self.full_path().clone()));
            }

            self.supervised.as_mut().unwrap()
        };

        let system = self.system.as_ref().unwrap().clone();
        let parent_ref = self.boxed_ref.clone();
        supervised.spawn(id, actor, system, parent_ref).await""","""        let system = self.system().clone();
        let parent_ref = self.boxed_actor_ref();
        self.ensure_supervised()
            .spawn(id, actor, system, parent_ref)
            .await"""),
 (C,"""        let supervised = {
            if self.supervised.is_none() {
                self.supervised =
                    Some(Supervised::new(self.id().clone(), self.full_path().clone()));
            }

            self.supervised.as_mut().unwrap()
        };

        let system = self.system.as_ref().unwrap().clone();
        let parent_ref = self.boxed_ref.clone();

        supervised.spawn_deferred(""","""        let system = self.system.clone().expect("system");
        let parent_ref = self.boxed_ref.clone();
        self.ensure_supervised().spawn_deferred("""),
 (C,"    pub fn supervised_count(","""    fn ensure_supervised(&mut self) -> &mut Supervised {
        let id = self.boxed_ref.actor_id().clone();
        let path = self.full_path.clone();
        self.supervised
            .get_or_insert_with(|| Supervised::new(id, path))
    }

    pub fn supervised_count("""),
 (C,"""        if let Some(handlers) = &mut self.on_actor_stopped {
            handlers.push(event_handler);
        } else {
            self.on_actor_stopped = Some(vec![event_handler]);
        }""","""        self.on_actor_stopped
            .get_or_insert_with(Vec::new)
            .push(event_handler);"""),
 (C,"""        self.on_actor_stopped.take()""","""        std::mem::take(&mut self.on_actor_stopped)"""),
 (C,"""        if let Some(sender) = on_stopped_handler {
            self.add_on_stopped_handler(sender);
        }

        self.set_status(ActorStatus::Stopping);""","""        self.status = ActorStatus::Stopping;
        match on_stopped_handler {
            None => (),
            Some(sender) => self.add_on_stopped_handler(sender),
        }"""),
 (C,"""        let supervised = {
            if let Some(supervised) = self.supervised.as_mut() {
                supervised
            } else {
                self.supervised =
                    Some(Supervised::new(self.id().clone(), self.full_path().clone()));
                self.supervised.as_mut().unwrap()
            }
        };

        supervised.add_child_ref(actor_ref)""","""        self.ensure_supervised().add_child_ref(actor_ref)"""),
 (C,"""        let parent_ref = self.boxed_parent_ref.take();

        if let Some(mut supervised) = self.supervised.take() {
            let parent_ref = parent_ref.clone();
            let boxed_ref = self.boxed_ref.clone();
            let system = self.system.clone();
            let status = self.status.clone();

            tokio::spawn(async move {
                supervised.stop_all().await;

                on_context_dropped(&boxed_ref, &parent_ref, &status, &system);
            });
        } else {
            on_context_dropped(&self.boxed_ref, &parent_ref, &self.status, &self.system);
        }""","""        let parent_ref = self.boxed_parent_ref.take();
        let mut supervised = match self.supervised.take() {
            Some(s) => s,
            None => {
                on_context_dropped(&self.boxed_ref, &parent_ref, &self.status, &self.system);
                return;
            }
        };

        let boxed_ref = self.boxed_ref.clone();
        let system = self.system.take();
        let status = self.status.clone();
        let cleanup = async move {
            supervised.stop_all().await;
            on_context_dropped(&boxed_ref, &parent_ref, &status, &system);
        };
        tokio::spawn(cleanup);"""),
]),
]
