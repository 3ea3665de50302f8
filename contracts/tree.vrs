//@include prelude.vrs
//@type src/tree.rs TC
//@struct src/tree.rs Tree
//@struct src/tree.rs TreeData
//@impl src/tree.rs VebTree for Tree
//@subst * ChildTree => <TC<Children, K, V> as TreeCollection>::Tree
//@default src/lib.rs VebTree len_hint
//@prologue len_hint proof { self.lemma_wf(); lemma_hint(self@); }
//@prologue from_monad proof { K::lemma_key(); }
//@prologue *self proof { K::lemma_key(); self.lemma_wf(); self.lemma_tree(); }
    open spec fn exact() -> bool { false }
    open spec fn laws() -> bool { K::klaws() && <K as VebKeyRef<K::Hi, K::Lo>>::rlaws() && (forall|k: K| #[trigger] k.sr() == (k.hi(), k.lo())) && Summary::Tree::laws() && TC::<Children, K, V>::laws() && <TC::<Children, K, V> as TreeCollection>::Tree::laws() }
    open spec fn wf(&self) -> bool {
        self.data matches Some(data) ==> {
            &&& klt(self.min.0, data.max.0)
            &&& data.children matches Some(sc) ==> {
                &&& sc.0.wf()
                &&& sc.1.wf()
                &&& forall|h: K::Hi| sc.0@.contains_key(h) <==> #[trigger] sc.1@.contains_key(h)
                &&& forall|h: K::Hi| #![trigger sc.1@.contains_key(h)] #![trigger sc.1@[h]] sc.1@.contains_key(h) ==> sc.1@[h].wf()
                &&& forall|h: K::Hi, l: K::Lo| #![trigger sc.1@[h]@.contains_key(l)] sc.1@.contains_key(h) && sc.1@[h]@.contains_key(l) ==> {
                    let k = K::mk(h, l);
                    &&& k.hi() == h && k.lo() == l
                    &&& klt(self.min.0, k) && klt(k, data.max.0)
                }
            }
        }
    }
    open spec fn view(&self) -> IMap<K, V> {
        IMap::new(
            |k: K| k == self.min.0 || (self.data matches Some(data) && (k == data.max.0 || 
                (data.children matches Some(sc) && sc.1@.contains_key(k.hi()) && sc.1@[k.hi()]@.contains_key(k.lo())))),
            |k: K| if k == self.min.0 { self.min.1 } else if k == self.data->0.max.0 { self.data->0.max.1 } else {
                (self.data->0.children->0).1@[k.hi()]@[k.lo()]
            })
    }

    proof fn lemma_wf(&self) {
        K::lemma_key();
        assert(is_min(self@, self.min.0));
        if self.data is Some { assert(is_max(self@, self.data->0.max.0)); assert(self.min.0 != self.data->0.max.0); } else { assert(is_max(self@, self.min.0)); }
    }
//@endimpl
impl<K, V, Summary, Children> Tree<K, V, Summary, Children>
where
    K: VebKey + VebKeyRef<K::Hi, K::Lo>,
    Summary: VebTreeMarker<K::Hi, ()>,
    Children: VebTreeCollectionMarker<K, V>,
{
    pub proof fn lemma_tree(&self) requires Self::laws(), self.wf() 
      ensures is_min(self@, self.min.0), self.data is None ==> is_max(self@, self.min.0),
         self.data is Some ==> self.min.0 != self.data->0.max.0 && is_max(self@, self.data->0.max.0) && klt(self.min.0, self.data->0.max.0),
    {
        K::lemma_key();
    }
}

// ---- clones: a tree, and a collection with its trees, copies to one with the same entries
pub open spec fn same_tree<T: VebTree>(a: T, b: T) -> bool { a.wf() ==> b.wf() && b@ =~= a@ }
pub open spec fn same_coll<C: TreeCollection>(a: C, b: C) -> bool {
    a.wf() ==> b.wf() && (forall|h: C::Hi| a@.contains_key(h) <==> #[trigger] b@.contains_key(h)) && (forall|h: C::Hi| #![trigger a@[h]] #![trigger b@[h]] a@.contains_key(h) ==> same_tree(a@[h], b@[h]))
}
pub type ChildOpt<K, V, Summary, Children> = Option<(<Summary as VebTreeMarker<<K as VebKey>::Hi, ()>>::Tree, TC<Children, K, V>)>;
pub open spec fn same_children<K: VebKey, V, Summary: VebTreeMarker<K::Hi, ()>, Children: VebTreeCollectionMarker<K, V>>(a: ChildOpt<K, V, Summary, Children>, b: ChildOpt<K, V, Summary, Children>) -> bool {
    match a { None => b is None, Some(x) => b matches Some(y) && same_tree(x.0, y.0) && same_coll(x.1, y.1) }
}
pub open spec fn same_data<K: VebKey, V, Summary: VebTreeMarker<K::Hi, ()>, Children: VebTreeCollectionMarker<K, V>>(a: TreeData<Summary, Children, K, V>, b: TreeData<Summary, Children, K, V>) -> bool {
    b.max == a.max && same_children::<K, V, Summary, Children>(a.children, b.children)
}
/// what is assumed of the clone of the children (the same statement, one level down)
pub open spec fn children_clone<K: VebKey, V, Summary: VebTreeMarker<K::Hi, ()>, Children: VebTreeCollectionMarker<K, V>>() -> bool where Option<(Summary::Tree, TC<Children, K, V>)>: Clone {
    forall|a: &ChildOpt<K, V, Summary, Children>, b: ChildOpt<K, V, Summary, Children>| #[trigger] call_ensures(<Option<(Summary::Tree, TC<Children, K, V>)> as Clone>::clone, (a,), b) ==> same_children::<K, V, Summary, Children>(*a, b)
}
/// Option's own Clone, given the clone of TreeData
pub open spec fn data_clone<K: VebKey, V, Summary: VebTreeMarker<K::Hi, ()>, Children: VebTreeCollectionMarker<K, V>>() -> bool where Option<TreeData<Summary, Children, K, V>>: Clone {
    forall|a: &Option<TreeData<Summary, Children, K, V>>, b: Option<TreeData<Summary, Children, K, V>>| #[trigger] call_ensures(<Option<TreeData<Summary, Children, K, V>> as Clone>::clone, (a,), b) ==> match *a { None => b is None, Some(x) => b matches Some(y) && same_data(x, y) }
}
//@impl src/tree.rs Clone for TreeData
//@contract clone -> r
    ensures clone_ok::<(K, V)>() && children_clone::<K, V, Summary, Children>() ==> same_data(*self, r)
//@end
//@optcontract clone_from -> r
    ensures clone_ok::<(K, V)>() && children_clone::<K, V, Summary, Children>() ==> same_data(*source, *final(self))
//@end
//@endimpl
pub open spec fn same_veb<K: VebKey + VebKeyRef<K::Hi, K::Lo>, V, Summary: VebTreeMarker<K::Hi, ()>, Children: VebTreeCollectionMarker<K, V>>(a: Tree<K, V, Summary, Children>, b: Tree<K, V, Summary, Children>) -> bool {
    Tree::<K, V, Summary, Children>::laws() && a.wf() ==> b.wf() && b@ =~= a@
}
/// equal parts give equal entries
pub proof fn lemma_same<K: VebKey + VebKeyRef<K::Hi, K::Lo>, V, Summary: VebTreeMarker<K::Hi, ()>, Children: VebTreeCollectionMarker<K, V>>(a: Tree<K, V, Summary, Children>, b: Tree<K, V, Summary, Children>)
    requires b.min == a.min, match a.data { None => b.data is None, Some(x) => b.data matches Some(y) && same_data(x, y) }
    ensures same_veb(a, b)
{ if Tree::<K, V, Summary, Children>::laws() && a.wf() { K::lemma_key(); assert(b.wf()); assert(b@ =~= a@); } }
//@impl src/tree.rs Clone for Tree
//@contract clone -> r
    ensures clone_ok::<(K, V)>() && data_clone::<K, V, Summary, Children>() ==> r.min == self.min && match self.data { None => r.data is None, Some(x) => r.data matches Some(y) && same_data(x, y) }
//@end
//@optcontract clone_from -> r
    ensures clone_ok::<(K, V)>() && data_clone::<K, V, Summary, Children>() ==> final(self).min == source.min && match source.data { None => final(self).data is None, Some(x) => final(self).data matches Some(y) && same_data(x, y) }
//@end
//@endimpl
} // verus!
fn main() {}
