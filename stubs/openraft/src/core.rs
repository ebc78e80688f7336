use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use tokio::sync::{mpsc, oneshot, watch};
use tokio::time::Instant;

use crate::error::*;
use crate::metrics::{RaftMetrics, ServerState};
use crate::network::{RPCOption, RaftNetwork, RaftNetworkFactory};
use crate::raft::*;
use crate::storage::{Adaptor, RaftLogReader, RaftSnapshotBuilder, RaftStorage, Snapshot};
use crate::types::*;
use crate::witness;

type Nid<C> = <C as RaftTypeConfig>::NodeId;
type WTx<C> = oneshot::Sender<Result<ClientWriteResponse<C>, ClientWriteError<Nid<C>, <C as RaftTypeConfig>::Node>>>;

pub(crate) enum Msg<C: Cfg> {
    Tick,
    Append(AppendEntriesRequest<C>, oneshot::Sender<AppendEntriesResponse<Nid<C>>>),
    Vote(VoteRequest<Nid<C>>, oneshot::Sender<VoteResponse<Nid<C>>>),
    VoteResp(Vote<Nid<C>>, Nid<C>, VoteResponse<Nid<C>>),
    Snapshot(InstallSnapshotRequest<C>, oneshot::Sender<Result<InstallSnapshotResponse<Nid<C>>, InstallSnapshotError>>),
    Write(EntryPayload<C>, WTx<C>),
    Initialize(BTreeMap<Nid<C>, C::Node>, oneshot::Sender<Result<(), InitializeError<Nid<C>, C::Node>>>),
    IsInitialized(oneshot::Sender<bool>),
    AddLearner(Nid<C>, C::Node, WTx<C>),
    Change(BTreeSet<Nid<C>>, bool, WTx<C>),
    Progress(Vote<Nid<C>>, Nid<C>, Option<LogId<Nid<C>>>),
    HigherVote(Vote<Nid<C>>),
    Applied(u64, Result<Vec<(LogId<Nid<C>>, Option<Membership<Nid<C>, C::Node>>, C::R)>, StorageError<Nid<C>>>),
    Built(Result<SnapshotMeta<Nid<C>, C::Node>, StorageError<Nid<C>>>),
    Failed(StorageError<Nid<C>>),
    TriggerSnapshot,
    TriggerElect,
    TriggerHeartbeat,
    TriggerPurge(u64),
    Shutdown(oneshot::Sender<()>),
}

/// work of the state machine, one at a time, in order
enum Sm<C: Cfg> {
    Apply(u64, u64, Vec<String>),
    Install(SnapshotMeta<Nid<C>, C::Node>, Vec<u8>, oneshot::Sender<Result<(), StorageError<Nid<C>>>>),
    Build,
}

#[derive(Clone)]
struct Cmd<C: Cfg> {
    last: Option<LogId<Nid<C>>>,
    committed: Option<LogId<Nid<C>>>,
    purged: Option<LogId<Nid<C>>>,
    beat: u64,
}
struct Repl<C: Cfg> {
    tx: watch::Sender<Cmd<C>>,
    matched: Option<LogId<Nid<C>>>,
    /// The worker is gone before its core changes the log as a follower.
    task: tokio::task::JoinHandle<()>,
}
impl<C: Cfg> Drop for Repl<C> {
    fn drop(&mut self) {
        self.task.abort();
    }
}
type Ids<C> = Arc<Mutex<BTreeMap<u64, LogId<Nid<C>>>>>;

pub(crate) struct Core<C: Cfg, N: RaftNetworkFactory<C>, S: RaftStorage<C>> {
    id: Nid<C>,
    cfg: Arc<Config>,
    net: N,
    store: Adaptor<C, S>,
    tx: mpsc::UnboundedSender<Msg<C>>,
    metrics: watch::Sender<RaftMetrics<Nid<C>, C::Node>>,
    sm: mpsc::UnboundedSender<Sm<C>>,
    vote: Vote<Nid<C>>,
    state: ServerState,
    granted: BTreeSet<Nid<C>>,
    ids: Ids<C>,
    purged: Option<LogId<Nid<C>>>,
    committed: Option<LogId<Nid<C>>>,
    applied: Option<LogId<Nid<C>>>,
    applying: Option<u64>,
    snapshot: Option<LogId<Nid<C>>>,
    building: bool,
    members: Vec<StoredMembership<Nid<C>, C::Node>>,
    elect_at: Instant,
    heard_at: Option<Instant>,
    beat_at: Instant,
    beat: u64,
    pending: BTreeMap<u64, WTx<C>>,
    repl: BTreeMap<Nid<C>, Repl<C>>,
    incoming: Option<(String, Vec<u8>)>,
}

fn random(lo: u64, hi: u64) -> u64 {
    let mut b = [0u8; 8];
    simrt::entropy(&mut b);
    lo + u64::from_le_bytes(b) % (hi - lo).max(1)
}

fn summary<C: Cfg>(m: &Msg<C>) -> Option<String> {
    Some(match m {
        Msg::Tick | Msg::Progress(..) => return None,
        Msg::Append(r, _) if r.entries.is_empty() => return None,
        Msg::Append(r, _) => format!("append {} prev {:?} +{} commit {:?}", r.vote, r.prev_log_id.map(|x| x.to_string()), r.entries.len(), r.leader_commit.index()),
        Msg::Vote(r, _) => format!("vote request {} {:?}", r.vote, r.last_log_id.map(|x| x.to_string())),
        Msg::VoteResp(_, t, r) => format!("vote response of {t}: {} {}", r.vote, r.vote_granted),
        Msg::Snapshot(r, _) => r.summary(),
        Msg::Write(..) => "write".into(),
        Msg::Initialize(..) => "initialize".into(),
        Msg::AddLearner(i, ..) => format!("add learner {i}"),
        Msg::Change(s, ..) => format!("change membership to {s:?}"),
        Msg::HigherVote(v) => format!("higher vote {v}"),
        Msg::Built(r) => format!("snapshot built {:?}", r.as_ref().map(|m| m.last_log_id.map(|x| x.to_string()))),
        Msg::Failed(e) => format!("storage failed: {e}"),
        Msg::TriggerSnapshot => "trigger snapshot".into(),
        Msg::Shutdown(_) => "shutdown".into(),
        _ => return None,
    })
}

impl<C: Cfg, N: RaftNetworkFactory<C>, S: RaftStorage<C>> Core<C, N, S> {
    pub(crate) async fn start(
        id: Nid<C>,
        cfg: Arc<Config>,
        net: N,
        store: Adaptor<C, S>,
        tx: mpsc::UnboundedSender<Msg<C>>,
        metrics: watch::Sender<RaftMetrics<Nid<C>, C::Node>>,
    ) -> Result<Self, Fatal<Nid<C>>> {
        let mut s = store.s.write().await;
        let vote = s.read_vote().await?.unwrap_or_default();
        let st = s.get_log_state().await?;
        let (applied, sm_members) = s.last_applied_state().await?;
        let mut last = st.last_log_id;
        let mut purged = st.last_purged_log_id;
        if last < applied {
            s.purge_logs_upto(applied.unwrap()).await?;
            last = applied;
            purged = applied;
        }
        let mut ids = BTreeMap::new();
        let mut log = BTreeMap::new();
        let mut members = vec![sm_members];
        let mut at = purged.next_index();
        let end = last.next_index();
        let mut reader = s.get_log_reader().await;
        drop(s);
        while at < end {
            let to = end.min(at + 64);
            let es = reader.try_get_log_entries(at..to).await?;
            if es.is_empty() {
                return Err(Fatal::StorageError(StorageIOError::read_logs(AnyError::error(format!("log entries [{at}, {to}) are missing, the log is said to end at {end}"))).into()));
            }
            for e in es {
                if e.log_id.index != at {
                    return Err(Fatal::StorageError(StorageIOError::read_logs(AnyError::error(format!("log entry {at} is missing, found {}", e.log_id))).into()));
                }
                at += 1;
                ids.insert(e.log_id.index, e.log_id);
                log.insert(e.log_id.index, witness::content(&e));
                if let EntryPayload::Membership(m) = e.payload {
                    if Some(e.log_id.index) > applied.index() {
                        members.push(StoredMembership::new(Some(e.log_id), m));
                    }
                }
            }
        }
        witness::starts(&id, &vote, applied.index(), purged.index(), &log);
        let mut s = store.s.write().await;
        let mut snap = s.get_current_snapshot().await?;
        if snap.is_none() && purged.is_some() {
            let mut b = s.get_snapshot_builder().await;
            snap = Some(b.build_snapshot().await?);
        }
        drop(s);
        let (smtx, smrx) = mpsc::unbounded_channel();
        tokio::spawn(sm_worker(id, store.clone(), smrx, tx.clone()));
        let now = Instant::now();
        let mut core = Core {
            id,
            net,
            store,
            tx,
            metrics,
            sm: smtx,
            vote,
            state: ServerState::Follower,
            granted: BTreeSet::new(),
            ids: Arc::new(Mutex::new(ids)),
            purged,
            committed: applied,
            applied,
            applying: None,
            snapshot: snap.and_then(|x| x.meta.last_log_id),
            building: false,
            members,
            elect_at: now,
            heard_at: None,
            beat_at: now,
            beat: 0,
            pending: BTreeMap::new(),
            repl: BTreeMap::new(),
            incoming: None,
            cfg,
        };
        core.reset_election();
        core.report();
        Ok(core)
    }

    pub(crate) async fn main(mut self, mut rx: mpsc::UnboundedReceiver<Msg<C>>) {
        let mut done = None;
        let r: Result<(), Fatal<Nid<C>>> = loop {
            match rx.recv().await {
                None => break Err(Fatal::Stopped),
                Some(Msg::Shutdown(t)) => {
                    done = Some(t);
                    break Err(Fatal::Stopped);
                }
                Some(m) => {
                    if let Some(x) = summary(&m) {
                        let (id, st) = (self.id, self.state);
                        simrt::trace(|| format!("raft {id} {st:?}: {x}"));
                    }
                    if let Err(e) = self.handle(m).await {
                        break Err(Fatal::StorageError(e));
                    }
                    self.report();
                }
            }
        };
        let e = r.unwrap_err();
        let id = self.id;
        simrt::trace(|| format!("raft {id} stops: {e}"));
        if matches!(e, Fatal::StorageError(_)) {
            simrt::note("raft core stopped by a storage error");
        }
        self.repl.clear();
        self.metrics.send_modify(|m| {
            m.running_state = Err(e);
            m.state = ServerState::Shutdown;
            m.current_leader = None;
            m.replication = None;
        });
        drop(rx);
        self.pending.clear();
        if let Some(t) = done {
            let _ = t.send(());
        }
    }

    fn last(&self) -> Option<LogId<Nid<C>>> {
        self.ids.lock().unwrap().last_key_value().map(|x| *x.1).or(self.purged)
    }
    fn effective(&self) -> &StoredMembership<Nid<C>, C::Node> {
        self.members.last().unwrap()
    }
    fn rand_timeout(&self) -> Duration {
        Duration::from_millis(random(self.cfg.election_timeout_min, self.cfg.election_timeout_max))
    }
    fn reset_election(&mut self) {
        self.elect_at = Instant::now() + self.rand_timeout();
    }
    fn leader(&self) -> Option<Nid<C>> {
        if self.vote.committed {
            Some(self.vote.leader_id.node_id)
        } else {
            None
        }
    }
    fn forward(&self) -> ForwardToLeader<Nid<C>, C::Node> {
        match self.leader() {
            Some(l) if l != self.id => ForwardToLeader { leader_id: Some(l), leader_node: self.effective().membership().get_node(&l).cloned() },
            _ => ForwardToLeader { leader_id: None, leader_node: None },
        }
    }
    fn report(&mut self) {
        let state = if self.state == ServerState::Follower && !self.effective().membership().is_voter(&self.id) { ServerState::Learner } else { self.state };
        let m = RaftMetrics {
            running_state: Ok(()),
            id: self.id,
            current_term: self.vote.leader_id.term,
            vote: self.vote,
            last_log_index: self.last().index(),
            last_applied: self.applied,
            snapshot: self.snapshot,
            purged: self.purged,
            state,
            current_leader: if self.state == ServerState::Leader || self.leader() != Some(self.id) { self.leader() } else { None },
            millis_since_quorum_ack: None,
            membership_config: Arc::new(self.effective().clone()),
            replication: if self.state == ServerState::Leader {
                let mut r: BTreeMap<_, _> = self.repl.iter().map(|(k, v)| (*k, v.matched)).collect();
                r.insert(self.id, self.last());
                Some(r)
            } else {
                None
            },
        };
        self.metrics.send_if_modified(|o| {
            if *o != m {
                *o = m;
                true
            } else {
                false
            }
        });
    }

    async fn save_vote(&mut self, v: Vote<Nid<C>>) -> Result<(), StorageError<Nid<C>>> {
        if v != self.vote {
            self.store.s.write().await.save_vote(&v).await?;
            witness::voted(&self.id, &v);
            self.vote = v;
        }
        Ok(())
    }
    fn step_down(&mut self) {
        if self.state == ServerState::Leader {
            self.repl.clear();
            let f = self.forward();
            for (_, t) in std::mem::take(&mut self.pending) {
                let _ = t.send(Err(ClientWriteError::ForwardToLeader(f.clone())));
            }
        }
        self.state = ServerState::Follower;
        self.granted.clear();
        self.reset_election();
    }
    async fn append_local(&mut self, entries: Vec<Entry<C>>) -> Result<(), StorageError<Nid<C>>> {
        let mut new_members = vec![];
        let mut new_ids = vec![];
        for e in &entries {
            new_ids.push(e.log_id);
            if let EntryPayload::Membership(m) = &e.payload {
                new_members.push(StoredMembership::new(Some(e.log_id), m.clone()));
            }
        }
        witness::appending(&self.id, &entries);
        let told = entries.iter().map(|e| (e.log_id.index, witness::content(e))).collect();
        self.store.s.write().await.append_to_log(entries).await?;
        witness::appended(&self.id, told);
        {
            let mut ids = self.ids.lock().unwrap();
            for l in new_ids {
                ids.insert(l.index, l);
            }
        }
        self.members.extend(new_members);
        Ok(())
    }
    async fn truncate(&mut self, since: u64) -> Result<(), StorageError<Nid<C>>> {
        let first = {
            let ids = self.ids.lock().unwrap();
            ids.range(since..).next().map(|x| *x.1)
        };
        let Some(first) = first else { return Ok(()) };
        simrt::note("raft log truncated");
        witness::removing(&self.id, since, u64::MAX);
        self.store.s.write().await.delete_conflict_logs_since(first).await?;
        witness::removed(&self.id, since, u64::MAX);
        self.ids.lock().unwrap().split_off(&since);
        while self.members.len() > 1 && self.members.last().unwrap().log_id().index() >= Some(since) {
            self.members.pop();
        }
        Ok(())
    }
    async fn purge(&mut self, upto: LogId<Nid<C>>) -> Result<(), StorageError<Nid<C>>> {
        if Some(upto) <= self.purged {
            return Ok(());
        }
        simrt::note("raft log purged");
        // no reader may look for what goes away: known ids go first
        {
            let mut ids = self.ids.lock().unwrap();
            let keep = ids.split_off(&(upto.index + 1));
            *ids = keep;
        }
        self.purged = Some(upto);
        witness::removing(&self.id, 0, upto.index + 1);
        self.store.s.write().await.purge_logs_upto(upto).await?;
        witness::removed(&self.id, 0, upto.index + 1);
        Ok(())
    }
    async fn purge_by_policy(&mut self) -> Result<(), StorageError<Nid<C>>> {
        let end = self.snapshot.next_index().saturating_sub(self.cfg.max_in_snapshot_log_to_keep);
        if self.purged.next_index() + self.cfg.purge_batch_size > end {
            return Ok(());
        }
        let l = self.ids.lock().unwrap().get(&(end - 1)).copied();
        if let Some(l) = l {
            self.purge(l).await?;
        }
        Ok(())
    }
    fn advance_apply(&mut self) {
        let from = self.applying.map_or(self.applied.next_index(), |x| x + 1);
        let Some(c) = self.committed else { return };
        if self.applying.is_some() || c.index < from {
            return;
        }
        let to = c.index.min(from + 63);
        self.applying = Some(to);
        let _ = self.sm.send(Sm::Apply(from, to, self.effective().membership().nodes.keys().map(|k| k.to_string()).collect()));
    }
    fn try_commit(&mut self) {
        if self.state != ServerState::Leader {
            return;
        }
        let last = self.last();
        let me = self.id;
        let mem = self.effective().membership().clone();
        let ids = self.ids.lock().unwrap().clone();
        let from = self.committed.next_index();
        let mut best = None;
        for (i, l) in ids.range(from..) {
            if l.leader_id != self.vote.leader_id {
                continue;
            }
            let ok = mem.quorum(|n| {
                if *n == me {
                    last.index() >= Some(*i)
                } else {
                    self.repl.get(n).map_or(false, |r| r.matched >= Some(*l))
                }
            });
            if ok {
                best = Some(*l);
            } else {
                break;
            }
        }
        if best > self.committed {
            self.committed = best;
            self.advance_apply();
            self.push();
            // a leader that the committed membership no longer lists steps down
            if self.effective().log_id() <= &self.committed && !self.effective().membership().nodes.contains_key(&self.id) {
                self.leave();
            }
        }
    }
    fn leave(&mut self) {
        // answers for what is committed still come out of the state machine
        self.repl.clear();
        self.state = ServerState::Follower;
        self.reset_election();
    }
    fn cmd(&self) -> Cmd<C> {
        Cmd { last: self.last(), committed: self.committed, purged: self.purged, beat: self.beat }
    }
    fn push(&mut self) {
        let c = self.cmd();
        for r in self.repl.values() {
            let _ = r.tx.send(c.clone());
        }
    }
    async fn sync_repl(&mut self) {
        if self.state != ServerState::Leader {
            return;
        }
        let want: BTreeMap<_, _> = self.effective().membership().nodes.iter().filter(|x| *x.0 != self.id).map(|(a, b)| (*a, b.clone())).collect();
        self.repl.retain(|k, _| want.contains_key(k));
        for (t, n) in want {
            if self.repl.contains_key(&t) {
                continue;
            }
            let net = self.net.new_client(t, &n).await;
            let (tx, rx) = watch::channel(self.cmd());
            let task = tokio::spawn(replicate(t, self.vote, net, self.store.clone(), self.ids.clone(), rx, self.tx.clone(), self.cfg.clone()));
            self.repl.insert(t, Repl { tx, matched: None, task });
        }
    }
    async fn elect(&mut self) -> Result<(), StorageError<Nid<C>>> {
        let v = Vote::new(self.vote.leader_id.term + 1, self.id);
        simrt::note("raft election");
        self.save_vote(v).await?;
        self.state = ServerState::Candidate;
        self.granted = BTreeSet::from([self.id]);
        self.reset_election();
        let g = self.granted.clone();
        if self.effective().membership().quorum(|n| g.contains(n)) {
            return self.become_leader().await;
        }
        let targets: Vec<_> = self.effective().membership().nodes.iter().filter(|x| *x.0 != self.id && self.effective().membership().is_voter(x.0)).map(|(a, b)| (*a, b.clone())).collect();
        let req = VoteRequest { vote: v, last_log_id: self.last() };
        let ttl = Duration::from_millis(self.cfg.election_timeout_min);
        for (t, n) in targets {
            let mut net = self.net.new_client(t, &n).await;
            let req = req.clone();
            let tx = self.tx.clone();
            tokio::spawn(async move {
                let r = tokio::time::timeout(ttl, net.vote(req, RPCOption::new(ttl))).await;
                if verbose() {
                    eprintln!("{} raft vote {v:?} of {t}: {r:?}", simrt::now());
                }
                if let Ok(Ok(r)) = r {
                    let _ = tx.send(Msg::VoteResp(v, t, r));
                }
            });
        }
        Ok(())
    }
    async fn become_leader(&mut self) -> Result<(), StorageError<Nid<C>>> {
        simrt::note("raft leader elected");
        let mut v = self.vote;
        v.committed = true;
        self.save_vote(v).await?;
        self.state = ServerState::Leader;
        self.pending.clear();
        let e = Entry { log_id: LogId::new(self.vote.leader_id, self.last().next_index()), payload: EntryPayload::Blank };
        self.append_local(vec![e]).await?;
        self.beat_at = Instant::now();
        self.sync_repl().await;
        self.push();
        self.try_commit();
        Ok(())
    }
    async fn propose(&mut self, p: EntryPayload<C>, t: WTx<C>) -> Result<(), StorageError<Nid<C>>> {
        if self.state != ServerState::Leader {
            let _ = t.send(Err(ClientWriteError::ForwardToLeader(self.forward())));
            return Ok(());
        }
        let log_id = LogId::new(self.vote.leader_id, self.last().next_index());
        let member = matches!(p, EntryPayload::Membership(_));
        self.append_local(vec![Entry { log_id, payload: p }]).await?;
        self.pending.insert(log_id.index, t);
        if member {
            self.sync_repl().await;
        }
        self.push();
        self.try_commit();
        Ok(())
    }
    fn membership_ready(&self) -> Result<(), ChangeMembershipError<Nid<C>>> {
        if self.effective().log_id() > &self.committed {
            return Err(ChangeMembershipError::InProgress { committed: self.committed, membership_log_id: *self.effective().log_id() });
        }
        Ok(())
    }

    async fn handle(&mut self, m: Msg<C>) -> Result<(), StorageError<Nid<C>>> {
        match m {
            Msg::Tick => {
                let now = Instant::now();
                if self.state == ServerState::Leader {
                    if self.cfg.enable_heartbeat && now >= self.beat_at {
                        self.beat_at = now + Duration::from_millis(self.cfg.heartbeat_interval);
                        self.beat += 1;
                        self.push();
                    }
                } else if self.cfg.enable_elect && now >= self.elect_at && self.effective().membership().is_voter(&self.id) {
                    self.elect().await?;
                }
            }
            Msg::TriggerElect => {
                if self.effective().membership().is_voter(&self.id) && self.state != ServerState::Leader {
                    self.elect().await?;
                }
            }
            Msg::TriggerHeartbeat => {
                self.beat += 1;
                self.push();
            }
            Msg::Vote(r, t) => {
                let leased = self.vote.committed && self.leader() != Some(self.id) && self.heard_at.map_or(false, |h| h.elapsed() < Duration::from_millis(self.cfg.election_timeout_max)) || self.state == ServerState::Leader && r.vote.leader_id.term <= self.vote.leader_id.term;
                let granted = !leased && r.last_log_id >= self.last() && r.vote >= self.vote;
                if granted {
                    self.save_vote(r.vote).await?;
                    self.step_down();
                }
                if verbose() {
                    eprintln!("{} raft {} asked by {:?} last {:?} granted {granted} leased {leased} (own {:?} last {:?})", simrt::now(), self.id, r.vote, r.last_log_id, self.vote, self.last());
                }
                let _ = t.send(VoteResponse { vote: self.vote, vote_granted: granted, last_log_id: self.last() });
            }
            Msg::VoteResp(v, t, r) => {
                if self.state == ServerState::Candidate && self.vote == v && r.vote_granted {
                    self.granted.insert(t);
                    let g = self.granted.clone();
                    if self.effective().membership().quorum(|n| g.contains(n)) {
                        self.become_leader().await?;
                    }
                } else if !r.vote_granted {
                    self.higher(r.vote).await?;
                }
            }
            Msg::HigherVote(v) => self.higher(v).await?,
            Msg::Append(r, t) => {
                let a = self.on_append(r).await?;
                let _ = t.send(a);
            }
            Msg::Snapshot(r, t) => {
                let a = self.on_snapshot(r).await?;
                let _ = t.send(a);
            }
            Msg::Write(p, t) => self.propose(p, t).await?,
            Msg::Initialize(nodes, t) => {
                let last = self.last();
                if last.is_some() || self.vote != Vote::default() {
                    let _ = t.send(Err(InitializeError::NotAllowed(NotAllowed { last_log_id: last, vote: self.vote })));
                    return Ok(());
                }
                let m = Membership { configs: vec![nodes.keys().copied().collect()], nodes };
                if !m.is_voter(&self.id) {
                    let _ = t.send(Err(InitializeError::NotInMembers(NotInMembers { node_id: self.id, membership: m })));
                    return Ok(());
                }
                self.append_local(vec![Entry { log_id: LogId::default(), payload: EntryPayload::Membership(m) }]).await?;
                self.elect().await?;
                let _ = t.send(Ok(()));
            }
            Msg::IsInitialized(t) => {
                let _ = t.send(self.last().is_some() || self.vote != Vote::default());
            }
            Msg::AddLearner(id, node, t) => {
                if self.state != ServerState::Leader {
                    let _ = t.send(Err(ClientWriteError::ForwardToLeader(self.forward())));
                    return Ok(());
                }
                if let Err(e) = self.membership_ready() {
                    let _ = t.send(Err(ClientWriteError::ChangeMembershipError(e)));
                    return Ok(());
                }
                let mut m = self.effective().membership().clone();
                m.nodes.entry(id).or_insert(node);
                self.propose(EntryPayload::Membership(m), t).await?;
            }
            Msg::Change(goal, retain, t) => {
                if self.state != ServerState::Leader {
                    let _ = t.send(Err(ClientWriteError::ForwardToLeader(self.forward())));
                    return Ok(());
                }
                if let Err(e) = self.membership_ready() {
                    let _ = t.send(Err(ClientWriteError::ChangeMembershipError(e)));
                    return Ok(());
                }
                if goal.is_empty() {
                    let _ = t.send(Err(ClientWriteError::ChangeMembershipError(ChangeMembershipError::EmptyMembership)));
                    return Ok(());
                }
                let m = self.effective().membership().clone();
                if let Some(x) = goal.iter().find(|x| !m.nodes.contains_key(x)) {
                    let _ = t.send(Err(ClientWriteError::ChangeMembershipError(ChangeMembershipError::LearnerNotFound { node_id: *x })));
                    return Ok(());
                }
                let configs = if m.configs.contains(&goal) { vec![goal] } else { vec![m.configs.last().cloned().unwrap_or_default(), goal] };
                let voters: BTreeSet<_> = configs.iter().flatten().copied().collect();
                let mut nodes = m.nodes.clone();
                if !retain {
                    nodes.retain(|k, _| voters.contains(k) || !m.is_voter(k));
                }
                self.propose(EntryPayload::Membership(Membership { configs, nodes }), t).await?;
            }
            Msg::Progress(v, t, matched) => {
                if self.state == ServerState::Leader && self.vote == v {
                    if let Some(r) = self.repl.get_mut(&t) {
                        if matched > r.matched {
                            r.matched = matched;
                            self.try_commit();
                        }
                    }
                }
            }
            Msg::Applied(to, r) => {
                if self.applying == Some(to) {
                    self.applying = None;
                }
                for (l, mem, data) in r? {
                    self.applied = self.applied.max(Some(l));
                    if let Some(t) = self.pending.remove(&l.index) {
                        let _ = t.send(Ok(ClientWriteResponse { log_id: l, data, membership: mem }));
                    }
                }
                while self.members.len() > 1 && self.members[1].log_id() <= &self.applied {
                    self.members.remove(0);
                }
                if let SnapshotPolicy::LogsSinceLast(n) = self.cfg.snapshot_policy {
                    if self.applied.next_index() - self.snapshot.next_index().min(self.applied.next_index()) >= n {
                        self.build();
                    }
                }
                self.advance_apply();
            }
            Msg::TriggerSnapshot => self.build(),
            Msg::Built(r) => {
                self.building = false;
                let meta = r?;
                if meta.last_log_id > self.snapshot {
                    self.snapshot = meta.last_log_id;
                    self.purge_by_policy().await?;
                }
            }
            Msg::TriggerPurge(upto) => {
                let l = self.ids.lock().unwrap().get(&upto).copied();
                if let Some(l) = l {
                    if Some(l) <= self.snapshot {
                        self.purge(l).await?;
                    }
                }
            }
            Msg::Failed(e) => return Err(e),
            Msg::Shutdown(_) => unreachable!(),
        }
        Ok(())
    }
    fn build(&mut self) {
        if !self.building {
            self.building = true;
            let _ = self.sm.send(Sm::Build);
        }
    }
    async fn higher(&mut self, mut v: Vote<Nid<C>>) -> Result<(), StorageError<Nid<C>>> {
        v.committed = false;
        if v > self.vote {
            self.save_vote(v).await?;
            self.step_down();
        }
        Ok(())
    }
    /// accepts `v` as the vote of the current leader; None: it is outdated
    async fn follow(&mut self, v: Vote<Nid<C>>) -> Result<bool, StorageError<Nid<C>>> {
        if v < self.vote {
            return Ok(false);
        }
        if v > self.vote {
            self.save_vote(v).await?;
            self.step_down();
        } else if self.state == ServerState::Candidate {
            self.step_down();
        }
        self.heard_at = Some(Instant::now());
        // a follower waits for the lease of its leader to run out first
        self.elect_at = Instant::now() + Duration::from_millis(self.cfg.election_timeout_max) + self.rand_timeout();
        Ok(true)
    }
    async fn on_append(&mut self, r: AppendEntriesRequest<C>) -> Result<AppendEntriesResponse<Nid<C>>, StorageError<Nid<C>>> {
        if !self.follow(r.vote).await? {
            return Ok(AppendEntriesResponse::HigherVote(self.vote));
        }
        if let Some(p) = r.prev_log_id {
            if p.index >= self.committed.next_index() {
                let have = self.ids.lock().unwrap().get(&p.index).copied();
                if have != Some(p) {
                    if have.is_some() {
                        self.truncate(p.index).await?;
                    }
                    return Ok(AppendEntriesResponse::Conflict);
                }
            }
        }
        let mut new_last = r.prev_log_id;
        let mut fresh = vec![];
        for e in r.entries {
            new_last = Some(e.log_id);
            if fresh.is_empty() {
                if e.log_id.index < self.committed.next_index() {
                    continue;
                }
                let have = self.ids.lock().unwrap().get(&e.log_id.index).copied();
                match have {
                    Some(l) if l == e.log_id => continue,
                    Some(_) => self.truncate(e.log_id.index).await?,
                    None => {}
                }
            }
            fresh.push(e);
        }
        if !fresh.is_empty() {
            self.append_local(fresh).await?;
        }
        let c = r.leader_commit.min(new_last);
        if c > self.committed {
            self.committed = c;
            self.advance_apply();
        }
        Ok(AppendEntriesResponse::Success)
    }
    async fn on_snapshot(&mut self, r: InstallSnapshotRequest<C>) -> Result<Result<InstallSnapshotResponse<Nid<C>>, InstallSnapshotError>, StorageError<Nid<C>>> {
        if !self.follow(r.vote).await? {
            return Ok(Ok(InstallSnapshotResponse { vote: self.vote }));
        }
        if r.offset == 0 {
            let buf: Box<Cursor<Vec<u8>>> = self.store.s.write().await.begin_receiving_snapshot().await?;
            self.incoming = Some((r.meta.snapshot_id.clone(), buf.into_inner()));
        }
        match &mut self.incoming {
            Some((id, buf)) if *id == r.meta.snapshot_id && buf.len() as u64 == r.offset => buf.extend_from_slice(&r.data),
            x => {
                let expect = x.as_ref().map_or(0, |b| b.1.len() as u64);
                self.incoming = None;
                return Ok(Err(InstallSnapshotError::SnapshotMismatch(SnapshotMismatch { expect, got: r.offset })));
            }
        }
        if !r.done {
            return Ok(Ok(InstallSnapshotResponse { vote: self.vote }));
        }
        let (_, data) = self.incoming.take().unwrap();
        let upto = r.meta.last_log_id;
        if upto > self.committed {
            simrt::note("raft snapshot installed");
            let u = upto.unwrap();
            let have = self.ids.lock().unwrap().get(&u.index).copied();
            if have.is_some() && have != upto {
                let since = self.committed.next_index();
                self.truncate(since).await?;
            }
            self.committed = upto;
            let (tx, rx) = oneshot::channel();
            let _ = self.sm.send(Sm::Install(r.meta.clone(), data, tx));
            rx.await.map_err(|_| StorageIOError::write(AnyError::error("state machine worker is gone")))??;
            self.applied = upto;
            self.applying = None;
            self.snapshot = upto.max(self.snapshot);
            self.members.retain(|m| m.log_id() > &upto);
            self.members.insert(0, r.meta.last_membership);
            self.purge(u).await?;
            self.elect_at = Instant::now() + Duration::from_millis(self.cfg.election_timeout_max) + self.rand_timeout();
        }
        Ok(Ok(InstallSnapshotResponse { vote: self.vote }))
    }
}

async fn sm_worker<C: Cfg, S: RaftStorage<C>>(id: Nid<C>, store: Adaptor<C, S>, mut rx: mpsc::UnboundedReceiver<Sm<C>>, tx: mpsc::UnboundedSender<Msg<C>>) {
    // what an installed snapshot covers is not applied again
    let mut skip = 0;
    while let Some(w) = rx.recv().await {
        match w {
            Sm::Apply(a, b, peers) => {
                let a = a.max(skip);
                if a > b {
                    let _ = tx.send(Msg::Applied(b, Ok(vec![])));
                    continue;
                }
                let mut reader = store.s.write().await.get_log_reader().await;
                let r = async {
                    let es = reader.try_get_log_entries(a..b + 1).await?;
                    if es.len() as u64 != b + 1 - a || es.iter().enumerate().any(|(i, e)| e.log_id.index != a + i as u64) {
                        return Err(StorageIOError::read_logs(AnyError::error(format!("read log entries [{a}, {b}], got {:?}", es.iter().map(|e| e.log_id.index).collect::<Vec<_>>()))).into());
                    }
                    witness::read(&id, &es);
                    let rs = store.s.write().await.apply_to_state_machine(&es).await?;
                    witness::applies(&id, &es, &peers);
                    Ok(es
                        .into_iter()
                        .zip(rs)
                        .map(|(e, r)| {
                            let m = match e.payload {
                                EntryPayload::Membership(m) => Some(m),
                                _ => None,
                            };
                            (e.log_id, m, r)
                        })
                        .collect())
                }
                .await;
                skip = b + 1;
                if tx.send(Msg::Applied(b, r)).is_err() {
                    return;
                }
            }
            Sm::Install(meta, data, t) => {
                skip = meta.last_log_id.next_index();
                let r = store.s.write().await.install_snapshot(&meta, Box::new(Cursor::new(data))).await;
                if r.is_ok() {
                    if let Some(l) = meta.last_log_id {
                        witness::installs(&id, l.index);
                    }
                }
                let _ = t.send(r);
            }
            Sm::Build => {
                let mut b = store.s.write().await.get_snapshot_builder().await;
                let tx = tx.clone();
                tokio::spawn(async move {
                    let r: Result<Snapshot<C>, _> = b.build_snapshot().await;
                    let _ = tx.send(Msg::Built(r.map(|s| s.meta)));
                });
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
async fn replicate<C: Cfg, NW: RaftNetwork<C>, S: RaftStorage<C>>(
    target: Nid<C>,
    vote: Vote<Nid<C>>,
    mut net: NW,
    store: Adaptor<C, S>,
    ids: Ids<C>,
    mut rx: watch::Receiver<Cmd<C>>,
    tx: mpsc::UnboundedSender<Msg<C>>,
    cfg: Arc<Config>,
) {
    let backoff = Duration::from_millis(cfg.heartbeat_interval);
    let mut next = rx.borrow().last.next_index();
    let mut back = 1u64;
    let mut reader = store.s.write().await.get_log_reader().await;
    loop {
        let c = rx.borrow_and_update().clone();
        let mut need_snapshot = next < c.purged.next_index();
        let mut prev = None;
        let mut entries = vec![];
        if !need_snapshot {
            if next > 0 {
                prev = if c.purged.index() == Some(next - 1) { c.purged } else { ids.lock().unwrap().get(&(next - 1)).copied() };
                need_snapshot = prev.is_none();
            }
            let end = c.last.next_index().min(next + cfg.max_payload_entries);
            if !need_snapshot && next < end {
                match reader.try_get_log_entries(next..end).await {
                    Ok(e) => {
                        let whole = e.len() as u64 == end - next && e.iter().enumerate().all(|(i, x)| x.log_id.index == next + i as u64);
                        if !whole {
                            // purged meanwhile, or lost
                            let still = ids.lock().unwrap().contains_key(&next);
                            if still {
                                let _ = tx.send(Msg::Failed(StorageIOError::read_logs(AnyError::error(format!("replication read [{next}, {end}), got {:?}", e.iter().map(|x| x.log_id.index).collect::<Vec<_>>()))).into()));
                                return;
                            }
                            need_snapshot = true;
                        } else {
                            entries = e;
                        }
                    }
                    Err(e) => {
                        let _ = tx.send(Msg::Failed(e));
                        return;
                    }
                }
            }
        }
        if need_snapshot {
            let sent = send_snapshot(vote, &mut net, &store, &cfg).await;
            if verbose() {
                eprintln!("{} raft snapshot for {target} next {next} purged {:?}: {sent:?}", simrt::now(), c.purged);
            }
            match sent {
                Ok(Some(l)) => {
                    if tx.send(Msg::Progress(vote, target, Some(l))).is_err() {
                        return;
                    }
                    next = l.index + 1;
                    back = 1;
                }
                Ok(None) => {
                    if tx.send(Msg::TriggerSnapshot).is_err() {
                        return;
                    }
                    tokio::time::sleep(backoff).await;
                }
                Err(Some(v)) => {
                    let _ = tx.send(Msg::HigherVote(v));
                    return;
                }
                Err(None) => tokio::time::sleep(backoff).await,
            }
            if rx.has_changed().is_err() {
                return;
            }
            continue;
        }
        let matched = entries.last().map(|e: &Entry<C>| e.log_id).or(prev);
        let ttl = Duration::from_millis(cfg.heartbeat_interval.max(1) * 10);
        let r = tokio::time::timeout(ttl, net.append_entries(AppendEntriesRequest { vote, prev_log_id: prev, entries, leader_commit: c.committed }, RPCOption::new(ttl))).await;
        match r {
            Ok(Ok(AppendEntriesResponse::Success)) => {
                next = matched.next_index();
                back = 1;
                if tx.send(Msg::Progress(vote, target, matched)).is_err() {
                    return;
                }
            }
            Ok(Ok(AppendEntriesResponse::PartialSuccess(m))) => {
                next = m.next_index();
                if tx.send(Msg::Progress(vote, target, m)).is_err() {
                    return;
                }
            }
            Ok(Ok(AppendEntriesResponse::Conflict)) => {
                next = next.saturating_sub(back);
                back *= 2;
                continue;
            }
            Ok(Ok(AppendEntriesResponse::HigherVote(v))) => {
                let _ = tx.send(Msg::HigherVote(v));
                return;
            }
            Ok(Err(_)) | Err(_) => {
                if rx.has_changed().is_err() {
                    return;
                }
                tokio::time::sleep(backoff).await;
                continue;
            }
        }
        if next >= rx.borrow().last.next_index() && rx.changed().await.is_err() {
            return;
        }
        if rx.has_changed().is_err() {
            return;
        }
    }
}

/// Ok(None): there is no snapshot yet; Err(Some(v)): the target knows a higher vote
async fn send_snapshot<C: Cfg, NW: RaftNetwork<C>, S: RaftStorage<C>>(vote: Vote<Nid<C>>, net: &mut NW, store: &Adaptor<C, S>, cfg: &Config) -> Result<Option<LogId<Nid<C>>>, Option<Vote<Nid<C>>>> {
    let snap = store.s.write().await.get_current_snapshot().await;
    let snap = match snap {
        Ok(Some(s)) if s.meta.last_log_id.is_some() => s,
        Ok(_) => return Ok(None),
        Err(_) => return Err(None),
    };
    simrt::note("raft snapshot sent");
    let data = snap.snapshot.into_inner();
    let mut off = 0usize;
    let ttl = Duration::from_millis(cfg.install_snapshot_timeout);
    loop {
        let to = data.len().min(off + cfg.snapshot_max_chunk_size as usize);
        let done = to == data.len();
        let req = InstallSnapshotRequest { vote, meta: snap.meta.clone(), offset: off as u64, data: data[off..to].to_vec(), done };
        match tokio::time::timeout(ttl, net.install_snapshot(req, RPCOption::new(ttl))).await {
            Ok(Ok(r)) => {
                if r.vote > vote {
                    return Err(Some(r.vote));
                }
            }
            _ => return Err(None),
        }
        if done {
            return Ok(snap.meta.last_log_id);
        }
        off = to;
    }
}

/// RAFT_LOG: elections are printed
fn verbose() -> bool {
    static V: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *V.get_or_init(|| std::env::var_os("RAFT_LOG").is_some())
}
