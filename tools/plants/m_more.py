BUGS = [
dict(id="partition-by-hash", property="C16",
  edits=[("src/partitions.rs", "    index: HashMap<T, usize>,", "    index: HashMap<u64, usize>,"),
         ("src/partitions.rs", "        if let Some(x) = self.index.get(a) {", "        use std::hash::Hasher;\n        let mut hasher = std::collections::hash_map::DefaultHasher::new();\n        a.hash(&mut hasher);\n        let key = hasher.finish();\n\n        if let Some(x) = self.index.get(&key) {"),
         ("src/partitions.rs", "            self.index.insert(a.clone(), i);", "            self.index.insert(key, i);")],
  needs="elements that are different but have the same hash",
  breaks="they are taken for the same element",
  demo='''
use rust_systre::partitions::Partition;
#[derive(Clone, Debug, PartialEq, Eq)]
struct E(u32);
impl std::hash::Hash for E {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u32(self.0 % 2) }
}
fn main() {
    let p: Partition<E> = Partition::new();
    assert_eq!(p.find(&E(1)), E(1));
    assert_eq!(p.find(&E(3)), E(3));
}
'''),
]
