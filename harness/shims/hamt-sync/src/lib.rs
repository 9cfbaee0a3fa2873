//! Stand-in for jac3km4/hamt-sync: an immutable hash map with structural sharing.
use std::borrow::Borrow;
use std::fmt::{self, Debug};
use std::collections::HashMap;
use std::hash::Hash;
use std::sync::Arc;

pub struct Map<K, V>(Arc<HashMap<K, V>>);

impl<K: Hash + Eq + Clone, V: Clone> Map<K, V> {
    pub fn new() -> Self {
        Map(Arc::new(HashMap::new()))
    }
    #[must_use]
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut m = (*self.0).clone();
        m.insert(k, v);
        Map(Arc::new(m))
    }
    pub fn find<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.0.get(k)
    }
    pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(k)
    }
    pub fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<Self>
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(k).then(|| {
            let mut m = (*self.0).clone();
            m.remove(k);
            Map(Arc::new(m))
        })
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.0.iter()
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

impl<K, V> Clone for Map<K, V> {
    fn clone(&self) -> Self {
        Map(self.0.clone())
    }
}

impl<K: Hash + Eq + Clone, V: Clone> Default for Map<K, V> {
    fn default() -> Self {
        Self::new()
    }
}

impl<K: Hash + Eq + Clone + Debug, V: Clone + Debug> Debug for Map<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.0.iter()).finish()
    }
}
