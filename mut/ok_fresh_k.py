"""second batch of behaviour-preserving edits, store"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
K='src/brokers/store/domain/map.rs'
M=[
('k-entry',[F(K,'set','''
    pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
        let entry = Entry { value: MapValue(value), expires_at: self.deadline(ttl) };
        match self.inner.entry(key) {
            dashmap::mapref::entry::Entry::Occupied(mut o) => { o.insert(entry); }
            dashmap::mapref::entry::Entry::Vacant(v) => { v.insert(entry); }
        }
    }

    fn deadline(&self, ttl: Option<u64>) -> Option<Instant> {
        let secs = ttl.filter(|secs| *secs > 0).unwrap_or(self.config.default_ttl_secs);
        Instant::now().checked_add(Duration::from_secs(secs))
    }
'''),F(K,'get','''
    pub fn get(&self, key: &str) -> Option<Bytes> {
        let entry = self.inner.get(key)?;
        let live = entry.expires_at.map_or(true, |expiry| Instant::now() <= expiry);
        live.then(|| entry.value.0.clone())
    }
''')]),
('k-sweep',[F(K,'new','''
    pub fn new(config: Arc<StoreConfig>) -> Self {
        let inner = Arc::new(DashMap::new());
        tokio::spawn(Self::sweep_loop(Arc::downgrade(&inner), config.cleanup_interval_secs));
        Self { inner, config }
    }

    async fn sweep_loop(map: std::sync::Weak<DashMap<String, Entry>>, secs: u64) {
        let mut interval = time::interval(Duration::from_secs(secs));
        loop {
            interval.tick().await;
            let Some(map) = map.upgrade() else { return };
            Self::sweep(&map, Instant::now());
        }
    }

    fn sweep(map: &DashMap<String, Entry>, now: Instant) {
        map.retain(|_, entry| match entry.expires_at {
            Some(expiry) => now < expiry,
            None => true,
        });
    }
'''),F(K,'del','''
    pub fn del(&self, key: &str) -> bool {
        matches!(self.inner.remove(key), Some(_))
    }
''')]),
('k-get-match',[F(K,'get','''
    pub fn get(&self, key: &str) -> Option<Bytes> {
        let found = self.inner.get(key);
        match found.as_deref() {
            Some(Entry { expires_at: Some(expiry), .. }) if Instant::now() > *expiry => None,
            Some(Entry { value: MapValue(bytes), .. }) => Some(bytes.clone()),
            None => None,
        }
    }
''')]),
]
