pub type TreeListRemoveResult<TL> = (Option<(TL, bool)>, TreeKV<<TL as TreeList>::Tree>);
pub type TreeListMaybeRemoveResult<TL> = Result<TreeListRemoveResult<TL>, TL>;
pub trait TreeList: Sized {
    type Tree: VebTree;
    spec fn wf(&self) -> bool;
    spec fn view(&self) -> Seq<Self::Tree>;
    proof fn lemma_wf(&self) requires self.wf() ensures self@.len() > 0;

    fn from_monad(v: Self::Tree) -> (r: Self)
        ensures r.wf(), r@ == seq![v];
    fn len(&self) -> (r: NonZeroUsize)
        requires self.wf(),
        ensures r.v() == self@.len();
    fn get(&self, i: usize) -> (r: &Self::Tree)
        requires self.wf(), i < self@.len(),
        ensures *r == self@[i as int];
    fn get_mut(&mut self, i: usize) -> (r: &mut Self::Tree)
        requires old(self).wf(), i < old(self)@.len(),
        ensures *r == old(self)@[i as int], final(self).wf(), final(self)@ == old(self)@.update(i as int, *final(r));
    fn insert_tree(&mut self, i: usize, v: Self::Tree)
        requires old(self).wf(), i <= old(self)@.len(),
        ensures final(self).wf(), final(self)@ == old(self)@.insert(i as int, v);
    fn remove_key<F>(self, i: usize, f: F) -> (ret: TreeListRemoveResult<Self>)
    where
        F: FnOnce(Self::Tree) -> RemoveResult<Self::Tree>
        requires self.wf(), i < self@.len(), f.requires((self@[i as int],)),
        ensures exists|o: RemoveResult<Self::Tree>| #[trigger] f.ensures((self@[i as int],), o) && ({
            &&& ret.1 == o.1
            &&& match o.0 {
                Some(t) => ret.0 matches Some(cb) && !cb.1 && cb.0.wf() && cb.0@ =~= self@.update(i as int, t),
                None => match ret.0 {
                    None => self@.len() == 1,
                    Some(cb) => cb.1 && cb.0.wf() && cb.0@ =~= self@.remove(i as int) && self@.len() > 1,
                }
            }
        });
    fn maybe_remove_key<F>(self, i: usize, f: F) -> (ret: TreeListMaybeRemoveResult<Self>)
    where
        F: FnOnce(Self::Tree) -> MaybeRemoveResult<Self::Tree>
        requires self.wf(), i < self@.len(), f.requires((self@[i as int],)),
        ensures exists|o: MaybeRemoveResult<Self::Tree>| #[trigger] f.ensures((self@[i as int],), o) && match o {
            Err(t) => ret matches Err(c) && c.wf() && c@ =~= self@.update(i as int, t),
            Ok(o) => ret matches Ok(ret) && ({
                &&& ret.1 == o.1
                &&& match o.0 {
                    Some(t) => ret.0 matches Some(cb) && !cb.1 && cb.0.wf() && cb.0@ =~= self@.update(i as int, t),
                    None => match ret.0 {
                        None => self@.len() == 1,
                        Some(cb) => cb.1 && cb.0.wf() && cb.0@ =~= self@.remove(i as int) && self@.len() > 1,
                    }
                }
            }),
        };
}
pub trait List: Sized {
    type Value;
    spec fn wf(&self) -> bool;
    spec fn view(&self) -> Seq<Self::Value>;
    proof fn lemma_wf(&self) requires self.wf() ensures self@.len() > 0;

    fn from_monad(v0: Self::Value) -> (r: Self)
        ensures r.wf(), r@ == seq![v0];
    fn len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == self@.len();
    fn is_empty(&self) -> (r: bool)
        requires self.wf(),
        ensures !r
//@body src/bitset/map/list.rs List is_empty
        proof { self.lemma_wf(); }
//@end
    fn get(&self, i: usize) -> (r: &Self::Value)
        requires self.wf(), i < self@.len(),
        ensures *r == self@[i as int];
    fn get_mut(&mut self, i: usize) -> (r: &mut Self::Value)
        requires old(self).wf(), i < old(self)@.len(),
        ensures *r == old(self)@[i as int], final(self).wf(), final(self)@ == old(self)@.update(i as int, *final(r));
    fn insert_value(&mut self, i: usize, v: Self::Value)
        requires old(self).wf(), i <= old(self)@.len(),
        ensures final(self).wf(), final(self)@ == old(self)@.insert(i as int, v);
    fn remove_value(self, i: usize) -> (r: (Option<Self>, Self::Value))
        requires self.wf(), i < self@.len(),
        ensures r.1 == self@[i as int], match r.0 { None => self@.len() == 1, Some(l) => self@.len() > 1 && l.wf() && l@ =~= self@.remove(i as int) };
}
