J="coerce/src/persistent/journal/mod.rs";A="coerce/src/persistent/actor.rs";R="coerce/src/persistent/recovery.rs";P="coerce/src/persistent/journal/provider.rs";T="coerce/src/persistent/journal/types.rs";B="coerce/src/persistent/batch.rs"
PK=[
dict(name="journal",e=[
 (J,"""        let batch = batch
            .entries()
            .iter()
            .map(|e| {
                sequence_id += 1;
                JournalEntry {
                    sequence: sequence_id,
                    payload_type: e.payload_type.clone(),
                    bytes: e.bytes.clone(),
                }
            })
            .collect();

        let res = self
            .storage
            .write_message_batch(&self.persistence_id, batch)
            .await
            .map_err(|e| PersistErr::Storage(e));

        if res.is_ok() {
            self.last_sequence_id = sequence_id;
        }

        res""","""        let mut entries = Vec::with_capacity(batch.entries().len());
        for e in batch.entries() {
            sequence_id += 1;
            entries.push(JournalEntry {
                sequence: sequence_id,
                payload_type: e.payload_type.clone(),
                bytes: e.bytes.clone(),
            });
        }

        self.storage
            .write_message_batch(&self.persistence_id, entries)
            .await
            .map_err(PersistErr::Storage)?;

        self.last_sequence_id = sequence_id;
        Ok(())"""),
 (J,"""        let sequence = self.last_sequence_id + 1;

        self.storage
            .write_message(
                &self.persistence_id,
                JournalEntry {
                    sequence,
                    payload_type: payload_type.clone(),
                    bytes,
                },
            )
            .await?;
""","""        let sequence = self.next_sequence();
        let entry = JournalEntry {
            sequence,
            payload_type,
            bytes,
        };

        if let Err(e) = self.storage.write_message(&self.persistence_id, entry).await {
            return Err(e.into());
        }
"""),
 (J,"    pub async fn persist_snapshot<S","    fn next_sequence(&self) -> i64 {\n        self.last_sequence_id + 1\n    }\n\n    pub async fn persist_snapshot<S"),
 (J,"""        let sequence = self.last_sequence_id + 1;

        self.storage
            .write_snapshot(""","""        let sequence = 1 + self.last_sequence_id;

        self.storage
            .write_snapshot("""),
 (J,"""        self.last_sequence_id = sequence;
        self.last_snapshot_sequence_id = Some(sequence);
        Ok(())""","""        self.snapshot_taken(sequence);
        Ok(())"""),
 (J,"""    pub async fn recover_snapshot(&mut self)""","""    fn snapshot_taken(&mut self, sequence: i64) {
        self.last_snapshot_sequence_id = Some(sequence);
        self.last_sequence_id = sequence;
    }

    pub async fn recover_snapshot(&mut self)"""),
 (J,"""            self.last_sequence_id = sequence;
            self.last_snapshot_sequence_id = Some(sequence);

            debug!(
                "snapshot recovered""","""            self.snapshot_taken(sequence);

            debug!(
                "snapshot recovered""") if False else (J,"""            Ok(handler.map(|handler| RecoveredPayload {
                bytes,
                sequence,
                handler: handler.clone(),
            }))""","""            match handler {
                Some(handler) => {
                    let handler = handler.clone();
                    Ok(Some(RecoveredPayload {
                        bytes,
                        sequence,
                        handler,
                    }))
                }
                None => Ok(None),
            }"""),
 (J,"""            if recoverable_messages.len() == 0 {
                Ok(None)
            } else {
                Ok(Some(recoverable_messages))
            }""","""            Ok(Some(recoverable_messages).filter(|m| !m.is_empty()))"""),
 (J,"""            for entry in messages {
                self.last_sequence_id = entry.sequence;
""","""            let mut messages = messages.into_iter();
            while let Some(entry) = messages.next() {
                self.last_sequence_id = entry.sequence;
"""),
 (J,"""            Read::Message { sequence_id } => Ok(self
                .storage
                .read_message(persistence_id, sequence_id)
                .await?
                .map(|m| vec![m])),
""","""            Read::Message { sequence_id } => {
                let message = self.storage.read_message(persistence_id, sequence_id).await?;
                match message {
                    Some(m) => Ok(Some(vec![m])),
                    None => Ok(None),
                }
            }
"""),
]),
dict(name="pactor",e=[
 (A,"""        let message_bytes = message.as_bytes();
        match message_bytes {
            Ok(bytes) => {
                let mut attempts = 1;
                let bytes = Arc::new(bytes);
                loop {
                    let result = ctx
                        .persistence_mut()
                        .journal_mut::<Self>()
                        .persist_message::<M>(bytes.clone())
                        .await;

                    if let Some(res) = check(result, &mut attempts, self, ctx).await {
                        return res;
                    }
                }
            }

            Err(e) => return Err(PersistErr::Serialisation(e)),
        }""","""        let bytes = Arc::new(message.as_bytes().map_err(PersistErr::Serialisation)?);
        let mut attempts = 1;
        loop {
            let journal = ctx.persistence_mut().journal_mut::<Self>();
            let result = journal.persist_message::<M>(bytes.clone()).await;
            match check(result, &mut attempts, self, ctx).await {
                Some(res) => break res,
                None => continue,
            }
        }"""),
 (A,"""        if batch.entries().is_empty() {
            return Ok(());
        }
        let mut attempts = 1;
        loop {
            let result = ctx
                .persistence_mut()
                .journal_mut::<Self>()
                .persist_batch(&batch)
                .await;

            if let Some(res) = check(result, &mut attempts, self, ctx).await {
                return res;
            }
        }""","""        if batch.entries().len() == 0 {
            return Ok(());
        }
        let mut attempts = 1;
        let mut outcome = None;
        while outcome.is_none() {
            let result = ctx
                .persistence_mut()
                .journal_mut::<Self>()
                .persist_batch(&batch)
                .await;
            outcome = check(result, &mut attempts, self, ctx).await;
        }
        outcome.unwrap()"""),
 (A,"""    match result {
        Ok(res) => return Some(Ok(res)),
        Err(e) => {
            let failure_policy""","""    match result {
        Ok(()) => Some(Ok(())),
        Err(e) => {
            let failure_policy"""),
 (A,"""                PersistFailurePolicy::Retry(retry_policy) => {
                    if !should_retry(ctx, &attempts, retry_policy).await {
                        return Some(Err(e));
                    }
                }
""","""                PersistFailurePolicy::Retry(retry_policy) => {
                    if should_retry(ctx, &attempts, retry_policy).await {
                        *attempts = *attempts + 1;
                        return None;
                    }
                    Some(Err(e))
                }
"""),
 (A,"""                PersistFailurePolicy::ReturnErr => {
                    return Some(Err(e));
                }
""","""                PersistFailurePolicy::ReturnErr => Some(Err(e)),
"""),
 (A,"""            *attempts += 1;
            None
        }
    }
}""","""        }
    }
}"""),
 (A,"""        if let Some(snapshot) = snapshot {
            if let Err(e) = snapshot.recover(self, ctx).await {
                error!("Error while attempting to recover from a snapshot, error={error}, actor_id={actor_id}, persistence_key={persistence_key}",
                    error = &e,
                    actor_id = ctx.id(),
                    persistence_key = &persistence_key
                );

                self.on_recovery_err(e, ctx).await;
                ctx.stop(None);
                return;
            }
        }

        if let Some(messages) = messages {
            for message in messages {
                if let Err(e) = message.recover(self, ctx).await {
                    error!("Error while attempting to recover from a message, error={error}, actor_id={actor_id}, persistence_key={persistence_key}",
                        error = &e,
                        actor_id = ctx.id(),
                        persistence_key = &persistence_key
                    );

                    self.on_recovery_err(e, ctx).await;
                    ctx.stop(None);
                    return;
                }
            }
        }

        self.post_recovery(ctx).await;
    }
""","""        match replay(self, snapshot, messages.unwrap_or_default(), ctx).await {
            Ok(()) => self.post_recovery(ctx).await,
            Err(e) => {
                error!("recovery failed, error={error}, actor_id={actor_id}, persistence_key={persistence_key}",
                    error = &e,
                    actor_id = ctx.id(),
                    persistence_key = &persistence_key
                );
                self.on_recovery_err(e, ctx).await;
                ctx.stop(None);
            }
        }
    }
"""),
 (A,"""#[async_trait]
impl<A: 'static + PersistentActor + Send + Sync> Actor for A""","""async fn replay<A: PersistentActor>(
    actor: &mut A,
    snapshot: Option<crate::persistent::journal::RecoveredPayload<A>>,
    messages: Vec<crate::persistent::journal::RecoveredPayload<A>>,
    ctx: &mut ActorContext,
) -> Result<(), RecoveryErr> {
    if let Some(snapshot) = snapshot {
        snapshot.recover(actor, ctx).await?;
    }
    for message in messages {
        message.recover(actor, ctx).await?;
    }
    Ok(())
}

#[async_trait]
impl<A: 'static + PersistentActor + Send + Sync> Actor for A"""),
]),
dict(name="recov",e=[
 (R,"        let mut journal = None;\n",""),
 (R,"""                    journal = Some(loaded_journal);
                    break;
""","""                    return Recovery::Recovered(loaded_journal);
"""),
 (R,"""            attempts += 1;
        }

        let journal = journal.expect("no journal loaded");
        Recovery::Recovered(journal)
    }""","""            attempts += 1;
        }
    }"""),
 (R,"""    let snapshot = journal
        .recover_snapshot()
        .await
        .map_err(RecoveryErr::Snapshot)?;

    let messages = journal
        .recover_messages()
        .await
        .map_err(RecoveryErr::Messages)?;

    Ok(RecoveredJournal { snapshot, messages })""","""    let snapshot = match journal.recover_snapshot().await {
        Ok(snapshot) => snapshot,
        Err(e) => return Err(RecoveryErr::Snapshot(e)),
    };

    match journal.recover_messages().await {
        Err(e) => Err(RecoveryErr::Messages(e)),
        Ok(messages) => Ok(RecoveredJournal { snapshot, messages }),
    }"""),
]),
dict(name="prov",e=[
 (P,"""            let mut store = self.store.write();
            if let Some(journal) = store.get_mut(persistence_id) {
                journal.snapshots.push(entry);
            } else {
                store.insert(
                    persistence_id.to_string(),
                    ActorJournal::from_snapshot(entry),
                );
            }

            Ok(())""","""            let mut store = self.store.write();
            match store.entry(persistence_id.to_string()) {
                Entry::Occupied(mut journal) => journal.get_mut().snapshots.push(entry),
                Entry::Vacant(slot) => {
                    slot.insert(ActorJournal::from_snapshot(entry));
                }
            }

            Ok(())"""),
 (P,"""            if let Some(journal) = store.get_mut(persistence_id) {
                journal.messages.push(entry);
            } else {
                store.insert(
                    persistence_id.to_string(),
                    ActorJournal::from_message(entry),
                );
            }
""","""            store
                .entry(persistence_id.to_string())
                .or_insert_with(|| ActorJournal::from_messages(vec![]))
                .messages
                .push(entry);
"""),
 (P,"""                let mut entries = entries;
                journal.messages.append(&mut entries);
""","""                journal.messages.extend(entries);
"""),
 (P,"""            Ok(store
                .get(persistence_id)
                .and_then(|j| j.snapshots.last().cloned()))""","""            let latest = match store.get(persistence_id) {
                Some(journal) => journal.snapshots.last(),
                None => None,
            };
            Ok(latest.cloned())"""),
 (P,"""                let messages = match from_sequence {
                    0 => journal.messages.clone(),
                    from_sequence => {
                        let starting_message = journal
                            .messages
                            .iter()
                            .enumerate()
                            .find(|(_index, j)| j.sequence > from_sequence)
                            .map(|(index, _j)| index);

                        if let Some(starting_index) = starting_message {
                            journal.messages[starting_index..].iter().cloned().collect()
                        } else {
                            vec![]
                        }
                    }
                };
""","""                let messages: Vec<JournalEntry> = journal
                    .messages
                    .iter()
                    .filter(|m| m.sequence > from_sequence)
                    .cloned()
                    .collect();
"""),
 (P,"""                None => Ok(None),
                Some(journal) => Ok(journal
                    .messages
                    .iter()
                    .find(|n| n.sequence == sequence_id)
                    .cloned()),
            }""","""                None => Ok(None),
                Some(journal) => {
                    for message in &journal.messages {
                        if message.sequence == sequence_id {
                            return Ok(Some(message.clone()));
                        }
                    }
                    Ok(None)
                }
            }"""),
 (P,"""                                .filter(|m| m.sequence >= from_sequence)
                                .filter(|m| m.sequence <= to_sequence)
""","""                                .filter(|m| m.sequence >= from_sequence && m.sequence <= to_sequence)
"""),
]),
dict(name="prov2",e=[
 (P,"""                let messages = if let Some(newest_msg) = journal.messages.last() {
                    if newest_msg.sequence < to_sequence {
                        vec![]
                    } else {
                        get_messages_to(to_sequence, journal)
                    }
                } else {
                    get_messages_to(to_sequence, journal)
                };

                *journal = ActorJournal {
                    snapshots: mem::take(&mut journal.snapshots),
                    messages,
                };
""","""                journal.messages = get_messages_to(to_sequence, journal);
"""),
 (P,"""                            journal
                                .messages
                                .iter()
                                .filter(|m| m.sequence >= from_sequence)
                                .filter(|m| m.sequence <= to_sequence)
                                .cloned()
                                .collect(),
""","""                            {
                                let mut found = vec![];
                                for m in &journal.messages {
                                    if m.sequence < from_sequence || m.sequence > to_sequence {
                                        continue;
                                    }
                                    found.push(m.clone());
                                }
                                found
                            },
"""),
]),
dict(name="prov3",e=[
 (P,"""                let messages = if let Some(newest_msg) = journal.messages.last() {
                    if newest_msg.sequence < to_sequence {
                        vec![]
                    } else {
                        get_messages_to(to_sequence, journal)
                    }
                } else {
                    get_messages_to(to_sequence, journal)
                };

                *journal = ActorJournal {
                    snapshots: mem::take(&mut journal.snapshots),
                    messages,
                };
""","""                journal.messages.retain(|m| m.sequence >= to_sequence);
"""),
 (P,"""                fn get_messages_to(
                    to_sequence: i64,
                    journal: &mut ActorJournal,
                ) -> Vec<JournalEntry> {
                    let starting_message = journal
                        .messages
                        .iter()
                        .enumerate()
                        .find(|(_index, j)| j.sequence >= to_sequence)
                        .map(|(index, _j)| index);

                    starting_message.map_or_else(|| vec![], |m| journal.messages.split_off(m))
                }
""",""),
 (P,"""                        let starting_message = journal
                            .messages
                            .iter()
                            .enumerate()
                            .find(|(_index, j)| j.sequence > from_sequence)
                            .map(|(index, _j)| index);

                        if let Some(starting_index) = starting_message {
                            journal.messages[starting_index..].iter().cloned().collect()
                        } else {
                            vec![]
                        }
""","""                        match journal
                            .messages
                            .iter()
                            .position(|j| j.sequence > from_sequence)
                        {
                            Some(start) => journal.messages[start..].to_vec(),
                            None => Vec::new(),
                        }
"""),
]),
dict(name="types",e=[
 (T,"""        self.recoverable_messages.insert(
            identifier.to_string(),
            Arc::new(MessageRecoveryHandler::new()),
        );

        self.message_type_map
            .insert(TypeId::of::<M>(), identifier.into());

        self""","""        let type_id = TypeId::of::<M>();
        self.message_type_map.insert(type_id, Arc::from(identifier));

        let handler: RecoveryHandlerRef<A> = Arc::new(MessageRecoveryHandler::<A, M>::new());
        self.recoverable_messages
            .insert(identifier.to_owned(), handler);
        self"""),
 (T,"""        self.message_type_map.get(&TypeId::of::<M>()).cloned()""","""        match self.message_type_map.get(&TypeId::of::<M>()) {
            Some(t) => Some(t.clone()),
            None => None,
        }"""),
 (B,"""        let payload_type = self.journal_types.message_type_mapping::<M>().unwrap();
        let entry = BatchedEntry {
            payload_type,
            bytes: message.as_bytes().unwrap().into(),
        };

        self.entries.push(entry);
        self""","""        let bytes = Arc::new(message.as_bytes().expect("encode"));
        let payload_type = self
            .journal_types
            .message_type_mapping::<M>()
            .expect("message type");
        self.entries.push(BatchedEntry {
            bytes,
            payload_type,
        });
        self"""),
]),
]
