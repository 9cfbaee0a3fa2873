//! Stand-in for the crate `sequence_trie` 0.3 (children in a `HashMap`, so iteration has no
//! defined order, as in the original).
use std::borrow::Borrow;
use std::collections::HashMap;
use std::hash::Hash;

#[derive(Debug, Clone)]
pub struct SequenceTrie<K: Eq + Hash, V> {
    value: Option<V>,
    children: HashMap<K, SequenceTrie<K, V>>,
}

impl<K: Eq + Hash, V> Default for SequenceTrie<K, V> {
    fn default() -> Self {
        Self::new()
    }
}

impl<K: Eq + Hash, V> SequenceTrie<K, V> {
    pub fn new() -> Self {
        SequenceTrie {
            value: None,
            children: HashMap::new(),
        }
    }
    pub fn value(&self) -> Option<&V> {
        self.value.as_ref()
    }
    pub fn insert<'key, I, Q>(&mut self, key: I, value: V) -> Option<V>
    where
        I: IntoIterator<Item = &'key Q>,
        Q: 'key + ToOwned<Owned = K> + ?Sized,
        K: Borrow<Q>,
    {
        self.insert_owned(key.into_iter().map(ToOwned::to_owned), value)
    }
    pub fn insert_owned<I: IntoIterator<Item = K>>(&mut self, key: I, value: V) -> Option<V> {
        let mut node = self;
        for k in key {
            node = node.children.entry(k).or_default();
        }
        node.value.replace(value)
    }
    pub fn get<'key, I, Q>(&self, key: I) -> Option<&V>
    where
        I: IntoIterator<Item = &'key Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + 'key + ?Sized,
    {
        self.get_node(key).and_then(|n| n.value.as_ref())
    }
    pub fn get_node<'key, I, Q>(&self, key: I) -> Option<&SequenceTrie<K, V>>
    where
        I: IntoIterator<Item = &'key Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + 'key + ?Sized,
    {
        let mut node = self;
        for k in key {
            node = node.children.get(k)?;
        }
        Some(node)
    }
    pub fn get_mut<'key, I, Q>(&mut self, key: I) -> Option<&mut V>
    where
        I: IntoIterator<Item = &'key Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + 'key + ?Sized,
    {
        let mut node = self;
        for k in key {
            node = node.children.get_mut(k)?;
        }
        node.value.as_mut()
    }
    pub fn children_with_keys(&self) -> Vec<(&K, &SequenceTrie<K, V>)> {
        self.children.iter().collect()
    }
    pub fn iter(&self) -> std::vec::IntoIter<(Vec<&K>, &V)> {
        fn go<'a, K: Eq + Hash, V>(n: &'a SequenceTrie<K, V>, path: &mut Vec<&'a K>, out: &mut Vec<(Vec<&'a K>, &'a V)>) {
            if let Some(v) = &n.value {
                out.push((path.clone(), v));
            }
            for (k, c) in &n.children {
                path.push(k);
                go(c, path, out);
                path.pop();
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out.into_iter()
    }
    pub fn keys(&self) -> impl Iterator<Item = Vec<&K>> {
        self.iter().map(|(k, _)| k)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> {
        self.iter().map(|(_, v)| v)
    }
}
