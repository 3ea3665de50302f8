/// `Box::as_ref`: the contents
pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [<std::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T)
    ensures r == &**b;
/// `Box::as_mut`: the contents
pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [<std::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut] (b: &mut std::boxed::Box<T, A>) -> (r: &mut T)
    ensures &*r == &**old(b), &**final(b) == &*final(r);
