"""third batch of behaviour-preserving edits, store"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
K='src/brokers/store/domain/map.rs'
M=[
('entry-expired',[F(K,'get','''
    pub fn get(&self, key: &str) -> Option<Bytes> {
        let entry = self.inner.get(key)?;
        if entry.is_expired(Instant::now()) {
            return None;
        }
        Some(entry.value.0.clone())
    }
'''),(K,'''                        map.retain(|_, entry: &mut Entry| {
                            if let Some(expiry) = entry.expires_at {
                                return expiry > now;
                            }
                            true
                        });''','''                        map.retain(|_, entry: &mut Entry| !entry.is_expired(now));'''),
(K,'''#[derive(Clone)]
pub struct MapStore''','''impl Entry {
    fn new(value: Bytes, lifetime: Duration) -> Self {
        // A lifetime beyond what the clock can represent never ends
        Self { value: MapValue(value), expires_at: Instant::now().checked_add(lifetime) }
    }

    fn is_expired(&self, now: Instant) -> bool {
        self.expires_at.is_some_and(|deadline| deadline <= now)
    }
}

#[derive(Clone)]
pub struct MapStore'''),F(K,'set','''
    pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
        let secs = ttl.filter(|&secs| secs != 0).unwrap_or(self.config.default_ttl_secs);
        self.inner.insert(key, Entry::new(value, Duration::from_secs(secs)));
    }
'''),F(K,'del','''
    pub fn del(&self, key: &str) -> bool {
        match self.inner.remove(key) {
            Some((_, _entry)) => true,
            None => false,
        }
    }
''')]),
('sweep-fn',[F(K,'new','''
    pub fn new(config: Arc<StoreConfig>) -> Self {
        let inner: Arc<DashMap<String, Entry>> = Arc::default();
        let period = Duration::from_secs(config.cleanup_interval_secs);
        tokio::spawn(Self::sweep(Arc::downgrade(&inner), period));
        Self { inner, config }
    }

    async fn sweep(entries: std::sync::Weak<DashMap<String, Entry>>, period: Duration) {
        let mut interval = time::interval(period);
        loop {
            interval.tick().await;
            let Some(map) = entries.upgrade() else { return };
            let now = Instant::now();
            map.retain(|_, entry| match entry.expires_at {
                Some(deadline) => now < deadline,
                None => true,
            });
        }
    }
''')]),
('get-alive',[F(K,'get','''
    pub fn get(&self, key: &str) -> Option<Bytes> {
        self.inner
            .get(key)
            .filter(|entry| entry.expires_at.map_or(true, |deadline| Instant::now() <= deadline))
            .map(|entry| entry.value().value.0.clone())
    }
'''),F(K,'set','''
    pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
        let secs = match ttl {
            Some(secs) if secs > 0 => secs,
            _ => self.config.default_ttl_secs,
        };
        let entry = Entry {
            expires_at: Instant::now().checked_add(Duration::from_secs(secs)),
            value: MapValue(value),
        };
        let _previous = self.inner.insert(key, entry);
    }
''')]),
]
