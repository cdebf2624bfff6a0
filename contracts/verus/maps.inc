== text
// ---- assumed: the map types of std (HashMap, BTreeMap) behave as maps --------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { t: Vec<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Map::<K, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(*k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r.is_some() == self@.dom().contains(*k), r matches Some(v) ==> *v == self@[*k]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            r.is_some() == old(self)@.dom().contains(*k),
            match r { Some(v) => *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => final(self)@ == old(self)@ },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&mut self, k: K) -> (r: &mut V)
        requires old(self)@.dom().contains(k),
        ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, k: K, v: V) -> (r: &mut V)
        requires !old(self)@.dom().contains(k),
        ensures *r == v, final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r.is_some() == old(self)@.dom().contains(k), r matches Some(o) ==> o == old(self)@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r.is_some() == old(self)@.dom().contains(*k), r matches Some(o) ==> o == old(self)@[*k],
    { unimplemented!() }
    pub fn entry(&mut self, k: K) -> (r: HmEntry<'_, K, V>)
        ensures
            match r {
                HmEntry::Occupied(e) => e.k == k && old(self)@.dom().contains(k) && *e.m == *old(self) && *final(e.m) == *final(self),
                HmEntry::Vacant(e) => e.k == k && !old(self)@.dom().contains(k) && *e.m == *old(self) && *final(e.m) == *final(self),
            },
    {
        if self.has(&k) { HmEntry::Occupied(HmOccupied { m: self, k }) } else { HmEntry::Vacant(HmVacant { m: self, k }) }
    }
    /// the entries in some order, each key once
    #[verifier::external_body]
    pub fn iter(&self) -> (r: std::vec::IntoIter<(&K, &V)>)
        ensures
            lists(listed(vstd::std_specs::iter::IteratorSpec::remaining(&r)), self@),
            vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::will_return_none(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r).is_some(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: std::vec::IntoIter<(K, V)>)
        ensures
            lists(vstd::std_specs::iter::IteratorSpec::remaining(&r), self@),
            vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::will_return_none(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r).is_some(),
    { unimplemented!() }
}
pub open spec fn listed<K, V>(s: Seq<(&K, &V)>) -> Seq<(K, V)> { s.map_values(|x: (&K, &V)| (*x.0, *x.1)) }
/// the sequence has every entry of the map exactly once
pub open spec fn lists<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub enum HmEntry<'a, K, V> { Occupied(HmOccupied<'a, K, V>), Vacant(HmVacant<'a, K, V>) }
pub struct HmOccupied<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
pub struct HmVacant<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
impl<'a, K, V> HmOccupied<'a, K, V> {
    pub fn insert(&mut self, v: V) -> (r: V) where K: Copy
        requires old(self).m@.dom().contains(old(self).k),
        ensures
            r == old(self).m@[old(self).k],
            final(self).k == old(self).k,
            final(self).m@ == old(self).m@.insert(old(self).k, v),
            *final(final(self).m) == *final(old(self).m),
    { self.m.insert(self.k, v).unwrap() }
    pub fn into_mut(self) -> (r: &'a mut V)
        requires old(self.m)@.dom().contains(self.k),
        ensures *r == old(self.m)@[self.k], final(self.m)@ == old(self.m)@.insert(self.k, *final(r)),
    { self.m.at(self.k) }
}
impl<'a, K: Copy, V> HmOccupied<'a, K, V> {
    pub fn get(&self) -> (r: &V)
        requires self.m@.dom().contains(self.k),
        ensures *r == old(self.m)@[self.k],
    { self.m.get(&self.k).unwrap() }
    pub fn get_mut(&mut self) -> (r: &mut V)
        requires old(self).m@.dom().contains(old(self).k),
        ensures
            *r == old(self).m@[old(self).k],
            final(self).k == old(self).k,
            final(self).m@ == old(self).m@.insert(old(self).k, *final(r)),
            *final(final(self).m) == *final(old(self).m),
    { self.m.at(self.k) }
}
impl<'a, K, V> HmVacant<'a, K, V> {
    pub fn insert(self, v: V) -> (r: &'a mut V)
        requires !old(self.m)@.dom().contains(self.k),
        ensures *r == v, final(self.m)@ == old(self.m)@.insert(self.k, *final(r)),
    { self.m.add(self.k, v) }
}
impl<'a, K, V> HmEntry<'a, K, V> {
    pub open spec fn ok(self) -> bool {
        match self { HmEntry::Occupied(e) => e.m@.dom().contains(e.k), HmEntry::Vacant(e) => !e.m@.dom().contains(e.k) }
    }
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        requires self.ok(),
        ensures
            match self {
                HmEntry::Occupied(e) => *r == e.m@[e.k] && final(e.m)@ == e.m@.insert(e.k, *final(r)),
                HmEntry::Vacant(e) => *r == v && final(e.m)@ == e.m@.insert(e.k, *final(r)),
            },
    {
        match self { HmEntry::Occupied(e) => e.m.at(e.k), HmEntry::Vacant(e) => e.m.add(e.k, v) }
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires self.ok(), f.requires(()),
        ensures
            match self {
                HmEntry::Occupied(e) => *r == e.m@[e.k] && final(e.m)@ == e.m@.insert(e.k, *final(r)),
                HmEntry::Vacant(e) => f.ensures((), *r) && final(e.m)@ == e.m@.insert(e.k, *final(r)),
            },
    {
        match self { HmEntry::Occupied(e) => e.m.at(e.k), HmEntry::Vacant(e) => e.m.add(e.k, f()) }
    }
}
