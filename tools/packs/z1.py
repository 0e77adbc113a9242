J="providers/persistence/coerce-redis/src/journal/mod.rs";A="providers/persistence/coerce-redis/src/journal/actor.rs";N="coerce/src/remote/net/mod.rs";C="coerce/src/remote/config/mod.rs";B="coerce/src/remote/system/builder.rs"
PK=[
dict(name="redis-store",e=[
 (J,"""        let (tx, rx) = oneshot::channel();
        let key = (self.key_provider_fn)(persistence_id, "snapshot", self.config.as_ref());

        self.redis_journal.notify(Write {
            key,
            entry,
            result_channel: tx,
        })?;

        rx.await?
""","""        self.write(self.snapshot_key(persistence_id), entry).await
"""),
 (J,"""        let (result_channel, rx) = oneshot::channel();
        let key = (self.key_provider_fn)(persistence_id, "journal", self.config.as_ref());

        self.redis_journal.notify(Write {
            key,
            entry,
            result_channel,
        })?;

        rx.await?
""","""        self.write(self.journal_key(persistence_id), entry).await
"""),
 (J,"""        let (result_channel, rx) = oneshot::channel();
        let key = (self.key_provider_fn)(persistence_id, "journal", self.config.as_ref());
        self.redis_journal.notify(ReadMessages {
            key,
            start_sequence: Some(from_sequence),
            end_sequence: None,
            result_channel,
        })?;

        rx.await?
""","""        self.read_range(self.journal_key(persistence_id), from_sequence, None)
            .await
"""),
 (J,"""        let (result_channel, rx) = oneshot::channel();
        let key = (self.key_provider_fn)(persistence_id, "journal", self.config.as_ref());
        self.redis_journal.notify(ReadMessages {
            key,
            start_sequence: Some(from_sequence),
            end_sequence: Some(to_sequence),
            result_channel,
        })?;

        rx.await?
""","""        self.read_range(self.journal_key(persistence_id), from_sequence, Some(to_sequence))
            .await
"""),
 (J,"""        let journal_key = (self.key_provider_fn)(persistence_id, "journal", self.config.as_ref());
        let snapshot_key = (self.key_provider_fn)(persistence_id, "snapshot", self.config.as_ref());

        self.redis_journal
            .send(Delete(vec![journal_key, snapshot_key]))
            .await?
""","""        let keys = vec![self.snapshot_key(persistence_id), self.journal_key(persistence_id)];
        let result = self.redis_journal.send(Delete(keys)).await;
        match result {
            Ok(result) => result,
            Err(e) => Err(e.into()),
        }
"""),
 (J,"""#[async_trait]
impl<C: ConnectionLike + Send + Sync> JournalStorage for RedisJournalStorage<C>
""","""impl<C: ConnectionLike + Send + Sync> RedisJournalStorage<C>
where
    C: 'static + Clone,
{
    fn key(&self, persistence_id: &str, value_type: &str) -> String {
        (self.key_provider_fn)(persistence_id, value_type, &self.config)
    }

    fn journal_key(&self, persistence_id: &str) -> String {
        self.key(persistence_id, "journal")
    }

    fn snapshot_key(&self, persistence_id: &str) -> String {
        self.key(persistence_id, "snapshot")
    }

    async fn write(&self, key: String, entry: JournalEntry) -> anyhow::Result<()> {
        let (result_channel, rx) = oneshot::channel();
        self.redis_journal.notify(Write {
            key,
            entry,
            result_channel,
        })?;

        rx.await?
    }

    async fn read_range(
        &self,
        key: String,
        from: i64,
        end_sequence: Option<i64>,
    ) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        let (result_channel, rx) = oneshot::channel();
        let request = ReadMessages {
            key,
            start_sequence: Some(from),
            end_sequence,
            result_channel,
        };
        self.redis_journal.notify(request)?;
        match rx.await {
            Ok(result) => result,
            Err(e) => Err(e.into()),
        }
    }
}

#[async_trait]
impl<C: ConnectionLike + Send + Sync> JournalStorage for RedisJournalStorage<C>
"""),
 (J,"""    format!(
        "{key_prefix}{persistence_id}:{value_type}",
        persistence_id = persistence_id,
        key_prefix = config.key_prefix,
        value_type = value_type
    )
""","""    format!("{}{}:{}", config.key_prefix, persistence_id, value_type)
"""),
]),
dict(name="redis-actor",e=[
 (A,"""        let connection = self.0.clone();
        let _ = tokio::spawn(async move {
            let mut connection = connection;
            if let Err(e) = redis::cmd("ZADD")
                .arg(message.key)
                .arg(message.entry.sequence)
                .arg(&message.entry.write_to_bytes().expect("serialized journal"))
                .query_async::<C, ()>(&mut connection)
                .await
            {
                let err = anyhow::Error::new(e);
                let _ = message.result_channel.send(Err(err));
            } else {
                let _ = message.result_channel.send(Ok(()));
            }
        });
""","""        let mut connection = self.0.clone();
        tokio::spawn(async move {
            let Write { key, entry, result_channel } = message;
            let bytes = entry.write_to_bytes().expect("serialized journal");
            let result = redis::cmd("ZADD")
                .arg(key)
                .arg(entry.sequence)
                .arg(bytes)
                .query_async::<C, ()>(&mut connection)
                .await;

            let _ = result_channel.send(result.map_err(anyhow::Error::new));
        });
"""),
 (A,"""            cmd.arg(message.key);

            for entry in message.entries {
                cmd.arg(entry.sequence)
                    .arg(entry.write_to_bytes().expect("serialized journal"));
            }

            if let Err(e) = cmd.query_async::<C, ()>(&mut connection).await {
                let _ = message.result_channel.send(Err(anyhow::Error::new(e)));
            } else {
                let _ = message.result_channel.send(Ok(()));
            }
""","""            cmd.arg(&message.key);
            for entry in &message.entries {
                let bytes = entry.write_to_bytes().expect("serialized journal");
                cmd.arg(entry.sequence);
                cmd.arg(bytes);
            }

            let result = match cmd.query_async::<C, ()>(&mut connection).await {
                Ok(()) => Ok(()),
                Err(e) => Err(anyhow::Error::new(e)),
            };
            let _ = message.result_channel.send(result);
"""),
 (A,"""            match data {
                Ok(data) => {
                    let _ = message.1.send(Ok(
                        data.and_then(|b| b.into_iter().next().and_then(read_journal_entry))
                    ));
                }
                Err(err) => {
                    let err = anyhow::Error::new(err);
                    let _ = message.1.send(Err(err));
                }
            }
""","""            let ReadSnapshot(_, result_channel) = message;
            let result = match data {
                Ok(None) => Ok(None),
                Ok(Some(values)) => Ok(values.into_iter().next().and_then(read_journal_entry)),
                Err(err) => Err(anyhow::Error::new(err)),
            };
            let _ = result_channel.send(result);
"""),
 (A,"""            let data = redis::cmd("ZRANGE")
                .arg(message.0)
""","""            let data = redis::cmd("ZRANGE")
                .arg(&message.0)
"""),
 (A,"""            let from_sequence = message.start_sequence.unwrap_or(0);
            let end_sequence = message
                .end_sequence
                .map_or("+inf".to_string(), |s| format!("{}", s));
""","""            let from_sequence = message.start_sequence.unwrap_or_default();
            let end_sequence = match message.end_sequence {
                Some(s) => s.to_string(),
                None => String::from("+inf"),
            };
"""),
 (A,"""                    let _ = message.result_channel.send(Ok(
                        data.and_then(|b| b.into_iter().map(read_journal_entry).collect())
                    ));
""","""                    let entries = data.and_then(|values| {
                        values.into_iter().map(|v| read_journal_entry(v)).collect::<Option<Vec<_>>>()
                    });
                    let _ = message.result_channel.send(Ok(entries));
"""),
 (A,"""        let _ = redis::cmd("DEL")
            .arg(message.0)
            .query_async(&mut self.0)
            .await?;

        Ok(())
""","""        let mut cmd = redis::cmd("DEL");
        cmd.arg(&message.0);
        cmd.query_async::<C, ()>(&mut self.0).await?;
        Ok(())
"""),
 (A,"""    Some(JournalEntry::read_from_bytes(redis_value).unwrap())
""","""    let entry = JournalEntry::read_from_bytes(redis_value);
    entry.unwrap().into()
"""),
]),
dict(name="net",e=[
 (N,"""    let mut reader = read;
    while let Some(res) = reader.next().await {
        match res {
            Ok(res) => match R::Message::read_from_bytes(res.to_vec()) {
                Some(msg) => {
                    receiver.on_receive(msg, &system).await;
                    if receiver.should_close() {
                        break;
                    }
                }
                None => {
                    // TODO: either pass the buffer into here or more context, this is pretty useless at the moment..
                    receiver.on_deserialisation_failed();
                }
            },
            Err(e) => {
                receiver.on_stream_lost(e);
                break;
            }
        }
    }
""","""    let mut reader = read;
    loop {
        let frame = match reader.next().await {
            None => break,
            Some(Ok(frame)) => frame,
            Some(Err(e)) => {
                receiver.on_stream_lost(e);
                break;
            }
        };

        let message = match R::Message::read_from_bytes(frame.to_vec()) {
            Some(message) => message,
            None => {
                receiver.on_deserialisation_failed();
                continue;
            }
        };

        receiver.on_receive(message, &system).await;
        if receiver.should_close() {
            break;
        }
    }
"""),
]),
dict(name="config",e=[
 (C,"""        let marker = RemoteActorMessageMarker::<A, M>::new();
        self.handler_types.get(&marker.id()).cloned()
""","""        let id = RemoteActorMessageMarker::<A, M>::new().id();
        match self.handler_types.get(&id) {
            Some(name) => Some(name.clone()),
            None => None,
        }
"""),
 (C,"""        self.message_handlers
            .get(key)
            .map(|handler| handler.new_boxed())
""","""        let handler = self.message_handlers.get(key)?;
        Some(handler.new_boxed())
"""),
 (C,"""        let mut actors: Vec<String> = self.actor_types.values().map(|a| a.clone()).collect();
        actors.sort_by(|a, b| a.to_lowercase().cmp(&b.to_lowercase()));
""","""        let mut actors = Vec::with_capacity(self.actor_types.len());
        for name in self.actor_types.values() {
            actors.push(name.clone());
        }
        actors.sort_by_key(|a: &String| a.to_lowercase());
"""),
 (B,"""        for (k, v) in &self.handlers {
            let _ = handler_types.insert(v.id(), k.clone());
        }

        for (k, v) in &self.actors {
            let _ = actor_types.insert(v.id(), k.clone());
        }

        let node_tag = tag.map_or_else(|| format!("cluster-node-{}", Uuid::new_v4()), |t| t);
""","""        self.handlers.iter().for_each(|(name, handler)| {
            handler_types.insert(handler.id(), name.to_string());
        });

        for (name, handler) in self.actors.iter() {
            actor_types.insert(handler.id(), name.clone());
        }

        let node_tag = match tag {
            Some(tag) => tag,
            None => format!("cluster-node-{}", Uuid::new_v4()),
        };
"""),
 (B,"""        let handler = RemoteActorMessageHandler::<A, M>::new(self.system.clone());
        self.handlers.insert(identifier.to_string(), handler);

        self
""","""        let name = identifier.to_string();
        let system = self.system.clone();
        self.handlers
            .insert(name, RemoteActorMessageHandler::<A, M>::new(system));
        self
"""),
 (B,"""        self.config_builders.into_iter().for_each(|h| {
            h(&mut config_builder);
        });
""","""        for configure in self.config_builders {
            configure(&mut config_builder);
        }
"""),
 (B,"""            current_leader: Arc::new(AtomicNodeId::new(if self.single_node_cluster {
                node_id as i64
            } else {
                -1
            })),
        };
""","""            current_leader: Arc::new(AtomicNodeId::new(initial_leader)),
        };
"""),
 (B,"""        let mut core = RemoteSystemCore {
""","""        let initial_leader = match self.single_node_cluster {
            true => node_id as i64,
            false => -1,
        };

        let mut core = RemoteSystemCore {
"""),
]),
]
