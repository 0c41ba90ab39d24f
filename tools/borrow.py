"""C16: client programs, hostile ones and their correct twins.

An owner is some storage (base `b`) and a thing made from it (`o`, or the base itself). A producer makes something
that borrows (`x`). Hostile programs misuse what was produced in one of the ways below; control programs use the same
things in the ways that have to work.
"""
import itertools

HELP = r'''
pub use dync::traits::*;
pub use dync::*;
pub use std::hint::black_box;

#[dync_trait]
pub trait All: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Send + Sync {}
impl<T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Send + Sync> All for T {}
pub type V = AllVTable;

/// Looks at (and changes) everything that can be reached.
pub trait Use {
    fn u(&mut self);
}
fn look<T: std::fmt::Debug + ?Sized>(x: &T) {
    black_box(format!("{:?}", x));
}
impl Use for String {
    fn u(&mut self) {
        self.push('x');
        look(self);
    }
}
impl Use for u64 {
    fn u(&mut self) {
        *self = self.wrapping_add(1);
        look(self);
    }
}
impl<'a> Use for &'a String { fn u(&mut self) { look(*self) } }
impl<'a> Use for &'a u64 { fn u(&mut self) { look(*self) } }
impl<'a> Use for &'a mut String { fn u(&mut self) { (**self).u() } }
impl<'a> Use for &'a mut u64 { fn u(&mut self) { (**self).u() } }
impl<'a> Use for &'a [String] { fn u(&mut self) { look(*self) } }
impl<'a> Use for &'a [u64] { fn u(&mut self) { look(*self) } }
impl<'a, T: Clone + std::fmt::Debug> Use for &'a mut [T] where T: Use { fn u(&mut self) { for x in self.iter_mut() { x.u() } look(*self) } }
impl<T: Use> Use for Option<T> { fn u(&mut self) { if let Some(x) = self { x.u() } } }
impl<A: Use, B: Use> Use for (A, B) { fn u(&mut self) { self.0.u(); self.1.u(); } }
impl<T: Use> Use for Vec<T> { fn u(&mut self) { for x in self { x.u() } } }
impl<'a> Use for ValueRef<'a, V> {
    fn u(&mut self) {
        look(self);
        black_box(self.clone_value());
        if let Some(x) = self.clone().downcast::<String>() { look(x) }
        if let Some(x) = self.clone().downcast::<u64>() { look(x) }
    }
}
impl<'a> Use for ValueRef<'a, CloneVTable> { fn u(&mut self) { black_box(self.clone_value()); } }
impl<'a> Use for ValueMut<'a, CloneVTable> { fn u(&mut self) { let x = self.clone_value(); self.assign(x) } }
impl<'a> Use for ValueMut<'a, V> {
    fn u(&mut self) {
        look(self);
        let x = self.clone_value();
        self.assign(x);
        if let Some(mut x) = self.reborrow_mut().downcast::<String>() { x.u() }
        if let Some(mut x) = self.reborrow_mut().downcast::<u64>() { x.u() }
    }
}
impl<'a> Use for Slice<'a, V> {
    fn u(&mut self) {
        look(self);
        for mut x in self.iter() { x.u() }
    }
}
impl<'a> Use for Slice<'a, CloneVTable> { fn u(&mut self) { for mut x in self.iter() { x.u() } } }
impl<'a> Use for SliceMut<'a, CloneVTable> { fn u(&mut self) { for mut x in self.iter() { x.u() } } }
impl<'a> Use for Slice<'a, dyn HasAll> {
    fn u(&mut self) { self.as_slice::<String>().u() }
}
impl<'a> Use for SliceMut<'a, dyn HasAll> {
    fn u(&mut self) { self.as_slice::<String>().u() }
}
impl<'a> Use for SliceMut<'a, V> {
    fn u(&mut self) {
        look(self);
        if self.len() > 1 { self.swap(0, 1); }
        for mut x in self.iter() { x.u() }
    }
}
impl<'a> Use for CopyValueRef<'a, V> {
    fn u(&mut self) { look(&self.upcast_ref::<CloneVTable>().upcast_ref::<CloneVTable>().is::<u64>()); self.upcast_ref::<V>().downcast::<u64>().u() }
}
impl<'a> Use for CopyValueMut<'a, V> {
    fn u(&mut self) { self.upcast::<V>().downcast::<u64>().u() }
}
impl<'a> Use for CopyValueRef<'a, CloneVTable> { fn u(&mut self) { self.upcast_ref::<CloneVTable>().downcast::<u64>().u() } }
impl<'a> Use for CopyValueMut<'a, CloneVTable> { fn u(&mut self) { self.upcast::<CloneVTable>().downcast::<u64>().u() } }
impl<'a> Use for SliceCopy<'a, V> {
    fn u(&mut self) { for mut x in self.iter() { x.u() } self.as_slice::<u64>().u() }
}
impl<'a> Use for SliceCopyMut<'a, V> {
    fn u(&mut self) {
        if self.len() > 1 { self.swap(0, 1); }
        for mut x in self.iter() { x.u() }
        self.as_slice::<u64>().u()
    }
}
impl<'a> Use for SliceCopy<'a, CloneVTable> { fn u(&mut self) { for mut x in self.iter() { x.u() } } }
impl<'a> Use for SliceCopyMut<'a, CloneVTable> { fn u(&mut self) { for mut x in self.iter() { x.u() } } }
impl<'a> Use for SliceCopy<'a, dyn HasAll> { fn u(&mut self) { self.as_slice::<u64>().u() } }
impl<'a> Use for SliceCopyMut<'a, dyn HasAll> { fn u(&mut self) { self.as_slice::<u64>().u() } }
impl<'a> Use for Meta<VTableRef<'a, V>> { fn u(&mut self) { let mut v = VecDyn::<V>::with_type_from(self.clone()); v.push_as(String::from("made")); look(&v) } }
impl<'a> Use for VTableRef<'a, V> { fn u(&mut self) { let f = self.as_ref().fmt_fn(); black_box(*f); } }
impl<'a> Use for ValueRef<'a, (DropFn, V)> { fn u(&mut self) { look(self); black_box(self.clone_value()); } }
impl<'a> Use for ValueMut<'a, (DropFn, V)> { fn u(&mut self) { look(self); let x = self.clone_value(); self.assign(x); } }
impl<'a> Use for &'a V { fn u(&mut self) { black_box(*self.fmt_fn()); } }
impl<'a> Use for &'a VecDyn<V> { fn u(&mut self) { look(*self) } }
impl<'a> Use for &'a mut VecDyn<V> { fn u(&mut self) { look(*self); self.get_mut(0).u(); } }
impl<'a> Use for &'a VecCopy<V> { fn u(&mut self) { self.as_slice().u() } }
impl<'a> Use for &'a mut VecCopy<V> { fn u(&mut self) { self.as_mut_slice().u() } }
impl<'a> Use for &'a Slice<'a, V> { fn u(&mut self) { look(*self) } }
impl<'a> Use for &'a SliceCopy<'a, V> { fn u(&mut self) { self.reborrow().u() } }
impl<'a, 'b> Use for &'a mut SliceMut<'b, V> { fn u(&mut self) { (**self).u() } }
impl<'a, 'b> Use for &'a mut SliceCopyMut<'b, V> { fn u(&mut self) { (**self).u() } }
/// Iterators, one element at a time.
pub struct It<I>(pub I);
impl<X: Use, I: Iterator<Item = X>> Use for It<I> { fn u(&mut self) { if let Some(mut x) = self.0.next() { x.u() } } }

pub fn string_static() -> &'static String { static S: std::sync::OnceLock<String> = std::sync::OnceLock::new(); S.get_or_init(string) }
pub fn see<T>(x: &T) { black_box(x as *const T); }
pub fn look2<T: std::fmt::Debug + ?Sized>(x: &T) { look(x) }
/// Runs the named programs, or all.
pub fn run(names: &[String], all: &[(&str, fn())]) {
    for (n, f) in all {
        if names.is_empty() || names.iter().any(|x| x == n) {
            f();
            eprintln!("DONE {}", n);
        }
    }
}
pub fn strings() -> Vec<String> { (0..4).map(|i| format!("string number {}", i)).collect() }
pub fn string() -> String { String::from("a single string") }
pub fn numbers() -> Vec<u64> { vec![1, 2, 3, 4] }
'''

SH, EX = 'shared', 'exclusive'


class Owner:
    def __init__(self, name, base, view, change_base, change, read, holds):
        self.name, self.base, self.view, self.change_base, self.change, self.read, self.holds = name, base, view, change_base, change, read, holds
        # What borrows from it: (name, shared or exclusive, consumes the owner, expression in terms of {o}).
        self.makes = []


VEC = 'VecDyn::<V>::from_vec(strings())'
COPY = 'VecCopy::<V>::from_vec(numbers())'
MORE = 'for _ in 0..64 {{ b.push_as(string()); }}'
MORE_COPY = 'for _ in 0..64 {{ b.push_as(7u64); }}'

# name, base, view of the base (None: the base itself), change of the base, change through the thing itself (None: it is shared), reading through it.
SLICE_READ = '{o}.get(0).downcast::<String>()'
OWNERS = {o.name: o for o in [
    Owner('vec', VEC, None, MORE, 'for _ in 0..64 {{ {o}.push_as(string()); }}', SLICE_READ, 's'),
    Owner('copy', COPY, None, MORE_COPY, 'for _ in 0..64 {{ {o}.push_as(7u64); }}', '{o}.get_ref_as::<u64>(0)', 'c'),
    Owner('strings', 'strings()', None, 'for _ in 0..64 {{ b.push(string()); }}', 'for _ in 0..64 {{ {o}.push(string()); }}', '{o}.get(0)', 'ts'),
    Owner('numbers', 'numbers()', None, 'for _ in 0..64 {{ b.push(7); }}', 'for _ in 0..64 {{ {o}.push(7); }}', '{o}.get(0)', 'tn'),
    Owner('string', 'Box::new(string())', None, '*b = string();', '*{o} = string();', '&*{o}', 't1'),
    Owner('number', 'Box::new(5u64)', None, '*b = 6;', '*{o} = 6;', '&*{o}', 't2'),
    Owner('boxed', 'BoxValue::<V>::new(string())', None, 'b.as_mut().u();', '{o}.as_mut().u();', '{o}.as_ref().downcast::<String>()', 'v'),
    Owner('small', 'SmallValue::<V>::new(5u64)', None, 'b.as_mut().u();', '{o}.as_mut().u();', '{o}.as_ref().downcast::<u64>()', 'v'),
    Owner('slice', VEC, 'b.as_slice()', MORE, None, SLICE_READ, 'S'),
    Owner('slice_of', 'strings()', 'Slice::<V>::from_slice(&b)', 'for _ in 0..64 {{ b.push(string()); }}', None, SLICE_READ, 'S'),
    Owner('slice_mut', VEC, 'b.as_mut_slice()', MORE, '{o}.u();', SLICE_READ, 'M'),
    Owner('slice_mut_of', 'strings()', 'SliceMut::<V>::from_slice(&mut b)', 'for _ in 0..64 {{ b.push(string()); }}', '{o}.u();', SLICE_READ, 'M'),
    Owner('copy_slice', COPY, 'b.as_slice()', MORE_COPY, None, '{o}.get(0).downcast::<u64>()', 'SC'),
    Owner('copy_slice_of', 'numbers()', 'SliceCopy::<V>::from_slice(&b)', 'for _ in 0..64 {{ b.push(7); }}', None, '{o}.get(0).downcast::<u64>()', 'SC'),
    Owner('copy_slice_mut', COPY, 'b.as_mut_slice()', MORE_COPY, '{o}.u();', '{o}.get(0).downcast::<u64>()', 'MC'),
    Owner('copy_slice_mut_of', 'numbers()', 'SliceCopyMut::<V>::from_slice(&mut b)', 'for _ in 0..64 {{ b.push(7); }}', '{o}.u();', '{o}.get(0).downcast::<u64>()', 'MC'),
    Owner('ref', VEC, 'b.get(1)', MORE, None, '{o}.reborrow().downcast::<String>()', 'R'),
    Owner('ref_of', 'Box::new(string())', 'ValueRef::<V>::new(&*b)', '*b = string();', None, '{o}.reborrow().downcast::<String>()', 'R'),
    Owner('ref_of_value', 'BoxValue::<V>::new(string())', 'b.as_ref()', 'b.as_mut().u();', None, '{o}.reborrow().downcast::<String>()', 'R'),
    Owner('mut', VEC, 'b.get_mut(1)', MORE, '{o}.u();', '{o}.reborrow().downcast::<String>()', 'W'),
    Owner('mut_of', 'Box::new(string())', 'ValueMut::<V>::new(&mut *b)', '*b = string();', '{o}.u();', '{o}.reborrow().downcast::<String>()', 'W'),
    Owner('mut_of_value', 'BoxValue::<V>::new(string())', 'b.as_mut()', 'b.as_mut().u();', '{o}.u();', '{o}.reborrow().downcast::<String>()', 'W'),
    Owner('mut_of_small', 'SmallValue::<V>::new(5u64)', 'b.as_mut()', 'b.as_mut().u();', '{o}.u();', '{o}.reborrow().downcast::<u64>()', 'W'),
    Owner('copy_ref', COPY, 'b.get_ref(1)', MORE_COPY, None, '{o}.upcast_ref::<V>().downcast::<u64>()', 'RC'),
    Owner('copy_ref_of', 'Box::new(5u64)', 'CopyValueRef::<V>::new(&*b)', '*b = 6;', None, '{o}.upcast_ref::<V>().downcast::<u64>()', 'RC'),
    Owner('copy_mut', COPY, 'b.get_mut(1)', MORE_COPY, '{o}.u();', '{o}.upcast::<V>().downcast::<u64>()', 'WC'),
    Owner('copy_mut_of', 'Box::new(5u64)', 'CopyValueMut::<V>::new(&mut *b)', '*b = 6;', '{o}.u();', '{o}.upcast::<V>().downcast::<u64>()', 'WC'),
]}

# (kind of owner, name, shared or exclusive, consumes the owner, expression)
MAKES = [
    ('s', 'get', SH, 0, '{o}.get(1)'), ('s', 'get_mut', EX, 0, '{o}.get_mut(1)'),
    ('s', 'iter', SH, 0, 'It({o}.iter())'), ('s', 'iter_mut', EX, 0, 'It({o}.iter_mut())'),
    ('s', 'iter_item', SH, 0, '{o}.iter().next()'), ('s', 'iter_mut_item', EX, 0, '{o}.iter_mut().next()'),
    ('s', 'iter_all', SH, 0, '{o}.iter().collect::<Vec<_>>()'), ('s', 'iter_mut_all', EX, 0, '{o}.iter_mut().collect::<Vec<_>>()'),
    ('s', 'as_slice', SH, 0, '{o}.as_slice()'), ('s', 'as_mut_slice', EX, 0, '{o}.as_mut_slice()'),
    ('s', 'as_slice_as', SH, 0, '{o}.as_slice_as::<String>()'), ('s', 'as_mut_slice_as', EX, 0, '{o}.as_mut_slice_as::<String>()'),
    ('s', 'get_ref_as', SH, 0, '{o}.get_ref_as::<String>(1)'), ('s', 'get_mut_as', EX, 0, '{o}.get_mut_as::<String>(1)'),
    ('s', 'iter_as', SH, 0, 'It({o}.iter_as::<String>().unwrap())'), ('s', 'iter_mut_as', EX, 0, 'It({o}.iter_mut_as::<String>().unwrap())'),
    ('s', 'check_ref', SH, 0, '{o}.check_ref::<String>().unwrap()'), ('s', 'check_mut', EX, 0, '{o}.check_mut::<String>().unwrap()'),
    ('s', 'vtable', SH, 0, '{o}.vtable()'), ('s', 'meta', SH, 0, 'Meta::from(&{o})'),
    ('s', 'push_as', EX, 0, '{o}.push_as(string()).unwrap()'), ('s', 'push', EX, 0, '{o}.push(BoxValue::<DropVTable>::new(string())).unwrap()'),
    ('s', 'resize', EX, 0, '{o}.resize(9, string()).unwrap()'), ('s', 'fill', EX, 0, '{o}.fill(string()).unwrap()'),
    ('s', 'push_cloned', EX, 0, '{o}.push_cloned(ValueRef::new(&string())).unwrap()'),
    ('s', 'append', EX, 0, '{o}.append(&mut VecDyn::<V>::from_vec(strings())).unwrap()'),
    ('s', 'get_downcast', SH, 0, '{o}.get(1).downcast::<String>()'), ('s', 'get_mut_downcast', EX, 0, '{o}.get_mut(1).downcast::<String>()'),
    ('s', 'get_upcast', SH, 0, '{o}.get(1).upcast::<CloneVTable>()'), ('s', 'get_mut_upcast', EX, 0, '{o}.get_mut(1).upcast::<CloneVTable>()'),
    ('s', 'get_clone', SH, 0, '{o}.get(1).clone()'), ('s', 'get_into_ref', EX, 0, 'ValueRef::from({o}.get_mut(1))'),
    ('s', 'slice_clone', SH, 0, '{o}.as_slice().clone()'),
    ('s', 'slice_into_iter', SH, 0, 'It({o}.as_slice().into_iter())'), ('s', 'mut_slice_into_iter', EX, 0, 'It({o}.as_mut_slice().into_iter())'),
    ('s', 'into_subslice', SH, 0, '{o}.as_slice().into_subslice(1..3)'), ('s', 'mut_into_subslice', EX, 0, '{o}.as_mut_slice().into_subslice(1..3)'),
    ('s', 'slice_upcast', SH, 0, '{o}.as_slice().upcast::<CloneVTable>()'), ('s', 'mut_slice_upcast', EX, 0, '{o}.as_mut_slice().upcast::<CloneVTable>()'),
    ('s', 'slice_dyn', SH, 0, 'into_dyn![Slice<dyn HasAll>]({o}.as_slice())'), ('s', 'mut_slice_dyn', EX, 0, 'into_dyn![SliceMut<dyn HasAll>]({o}.as_mut_slice())'),
    ('s', 'slice_dyn_back', SH, 0, 'from_dyn![Slice<dyn HasAll as V>](into_dyn![Slice<dyn HasAll>]({o}.as_slice()))'),
    ('s', 'mut_slice_dyn_back', EX, 0, 'from_dyn![SliceMut<dyn HasAll as V>](into_dyn![SliceMut<dyn HasAll>]({o}.as_mut_slice()))'),
    ('s', 'mut_slice_into_slice', EX, 0, 'Slice::from({o}.as_mut_slice())'),
    ('s', 'meta_of_slice', SH, 0, 'Meta::from({o}.as_slice())'), ('s', 'meta_of_mut_slice', EX, 0, 'Meta::from({o}.as_mut_slice())'),
    ('s', 'meta_of_ref', SH, 0, 'Meta::from({o}.get(1))'), ('s', 'meta_of_mut', EX, 0, 'Meta::from({o}.get_mut(1))'),
    ('s', 'parts', SH, 0, '{o}.as_slice().into_raw_parts().2'), ('s', 'mut_parts', EX, 0, '{o}.as_mut_slice().into_raw_parts().2'),

    ('c', 'get_ref', SH, 0, '{o}.get_ref(1)'), ('c', 'get_mut', EX, 0, '{o}.get_mut(1)'),
    ('c', 'iter', SH, 0, 'It({o}.iter())'), ('c', 'iter_mut', EX, 0, 'It({o}.iter_mut())'),
    ('c', 'iter_item', SH, 0, '{o}.iter().next()'), ('c', 'iter_mut_item', EX, 0, '{o}.iter_mut().next()'),
    ('c', 'iter_all', SH, 0, '{o}.iter().collect::<Vec<_>>()'), ('c', 'iter_mut_all', EX, 0, '{o}.iter_mut().collect::<Vec<_>>()'),
    ('c', 'as_slice', SH, 0, '{o}.as_slice()'), ('c', 'as_mut_slice', EX, 0, '{o}.as_mut_slice()'),
    ('c', 'as_slice_as', SH, 0, '{o}.as_slice_as::<u64>()'), ('c', 'as_mut_slice_as', EX, 0, '{o}.as_mut_slice_as::<u64>()'),
    ('c', 'get_ref_as', SH, 0, '{o}.get_ref_as::<u64>(1)'), ('c', 'get_mut_as', EX, 0, '{o}.get_mut_as::<u64>(1)'),
    ('c', 'iter_as', SH, 0, 'It({o}.iter_as::<u64>().unwrap())'), ('c', 'iter_mut_as', EX, 0, 'It({o}.iter_mut_as::<u64>().unwrap())'),
    ('c', 'check_ref', SH, 0, '{o}.check_ref::<u64>().unwrap()'), ('c', 'check_mut', EX, 0, '{o}.check_mut::<u64>().unwrap()'),
    ('c', 'push_as', EX, 0, '{o}.push_as(7u64).unwrap()'), ('c', 'push', EX, 0, '{o}.push(CopyValueRef::<()>::new(&7u64)).unwrap()'),
    ('c', 'resize', EX, 0, '{o}.resize(9, 7u64).unwrap()'), ('c', 'fill', EX, 0, '{o}.fill(7u64).unwrap()'),
    ('c', 'copy_from_slice', EX, 0, '{o}.copy_from_slice(&vec![7u64; {o}.len()]).unwrap()'),
    ('c', 'append', EX, 0, '{o}.append(&mut VecCopy::<V>::from_vec(numbers())).unwrap()'),
    ('c', 'get_downcast', SH, 0, '{o}.get_ref(1).downcast::<u64>()'), ('c', 'get_mut_downcast', EX, 0, '{o}.get_mut(1).downcast::<u64>()'),
    ('c', 'get_upcast', SH, 0, '{o}.get_ref(1).upcast::<CloneVTable>()'), ('c', 'get_into_ref', EX, 0, 'CopyValueRef::from({o}.get_mut(1))'),
    ('c', 'slice_into_iter', SH, 0, 'It({o}.as_slice().into_iter())'), ('c', 'mut_slice_into_iter', EX, 0, 'It({o}.as_mut_slice().into_iter())'),
    ('c', 'into_subslice', SH, 0, '{o}.as_slice().into_subslice(1..3)'), ('c', 'mut_into_subslice', EX, 0, '{o}.as_mut_slice().into_subslice(1..3)'),
    ('c', 'slice_upcast', SH, 0, '{o}.as_slice().upcast::<CloneVTable>()'), ('c', 'mut_slice_upcast', EX, 0, '{o}.as_mut_slice().upcast::<CloneVTable>()'),
    ('c', 'slice_dyn', SH, 0, 'into_dyn![SliceCopy<dyn HasAll>]({o}.as_slice())'), ('c', 'mut_slice_dyn', EX, 0, 'into_dyn![SliceCopyMut<dyn HasAll>]({o}.as_mut_slice())'),
    ('c', 'value_ref', SH, 0, 'ValueRef::from({o}.get_ref(1))'), ('c', 'value_mut', EX, 0, 'ValueMut::from({o}.get_mut(1))'),
    ('c', 'meta', SH, 0, 'Meta::from(&{o})'),
    ('c', 'meta_of_slice', SH, 0, 'Meta::from({o}.as_slice())'), ('c', 'meta_of_mut_slice', EX, 0, 'Meta::from({o}.as_mut_slice())'),
    ('c', 'meta_of_ref', SH, 0, 'Meta::from({o}.get_ref(1))'),

    ('ts', 'from_slice', SH, 0, 'Slice::<V>::from_slice(&{o})'), ('ts', 'from_mut_slice', EX, 0, 'SliceMut::<V>::from_slice(&mut {o})'),
    ('ts', 'slice_from', SH, 0, 'Slice::<V>::from(&{o}[..])'), ('ts', 'mut_slice_from', EX, 0, 'SliceMut::<V>::from(&mut {o}[..])'),
    ('ts', 'from_slice_items', SH, 0, 'It(Slice::<V>::from_slice(&{o}).into_iter())'), ('ts', 'from_mut_slice_items', EX, 0, 'It(SliceMut::<V>::from_slice(&mut {o}).into_iter())'),
    ('ts', 'ref', SH, 0, 'ValueRef::<V>::new(&{o}[1])'), ('ts', 'mut', EX, 0, 'ValueMut::<V>::new(&mut {o}[1])'),
    ('tn', 'from_slice', SH, 0, 'SliceCopy::<V>::from_slice(&{o})'), ('tn', 'from_mut_slice', EX, 0, 'SliceCopyMut::<V>::from_slice(&mut {o})'),
    ('tn', 'slice_from', SH, 0, 'SliceCopy::<V>::from(&{o}[..])'), ('tn', 'mut_slice_from', EX, 0, 'SliceCopyMut::<V>::from(&mut {o}[..])'),
    ('tn', 'from_slice_items', SH, 0, 'It(SliceCopy::<V>::from_slice(&{o}).into_iter())'), ('tn', 'from_mut_slice_items', EX, 0, 'It(SliceCopyMut::<V>::from_slice(&mut {o}).into_iter())'),
    ('tn', 'ref', SH, 0, 'CopyValueRef::<V>::new(&{o}[1])'), ('tn', 'mut', EX, 0, 'CopyValueMut::<V>::new(&mut {o}[1])'),
    ('t1', 'ref', SH, 0, 'ValueRef::<V>::new(&*{o})'), ('t1', 'mut', EX, 0, 'ValueMut::<V>::new(&mut *{o})'),
    ('t1', 'ref_downcast', SH, 0, 'ValueRef::<V>::new(&*{o}).downcast::<String>()'), ('t1', 'mut_downcast', EX, 0, 'ValueMut::<V>::new(&mut *{o}).downcast::<String>()'),
    ('t2', 'ref', SH, 0, 'CopyValueRef::<V>::new(&*{o})'), ('t2', 'mut', EX, 0, 'CopyValueMut::<V>::new(&mut *{o})'),
    ('t2', 'ref_downcast', SH, 0, 'CopyValueRef::<V>::new(&*{o}).downcast::<u64>()'), ('t2', 'mut_downcast', EX, 0, 'CopyValueMut::<V>::new(&mut *{o}).downcast::<u64>()'),
    ('t2', 'dyn_ref', SH, 0, 'ValueRef::<V>::new(&*{o})'), ('t2', 'dyn_mut', EX, 0, 'ValueMut::<V>::new(&mut *{o})'),

    ('v', 'as_ref', SH, 0, '{o}.as_ref()'), ('v', 'as_mut', EX, 0, '{o}.as_mut()'), ('v', 'ref_from', SH, 0, 'ValueRef::from(&{o})'),
    ('v', 'as_ref_upcast', SH, 0, '{o}.as_ref().upcast::<CloneVTable>()'), ('v', 'as_mut_upcast', EX, 0, '{o}.as_mut().upcast::<CloneVTable>()'),
    ('v', 'as_mut_into_ref', EX, 0, 'ValueRef::from({o}.as_mut())'), ('v', 'meta', SH, 0, 'Meta::from({o}.as_ref())'), ('v', 'meta_of_mut', EX, 0, 'Meta::from({o}.as_mut())'),
    ('v', 'as_ref_clone', SH, 0, '{o}.as_ref().clone()'),

    ('S', 'get', SH, 0, '{o}.get(1)'), ('S', 'get_as', SH, 0, '{o}.get_as::<String>(1)'), ('S', 'iter', SH, 0, 'It({o}.iter())'), ('S', 'iter_item', SH, 0, '{o}.iter().next()'),
    ('S', 'iter_as', SH, 0, 'It({o}.iter_as::<String>().unwrap())'), ('S', 'as_slice', SH, 0, '{o}.as_slice::<String>()'), ('S', 'chunks', SH, 0, 'It({o}.chunks_exact(2))'),
    ('S', 'chunks_all', SH, 0, '{o}.chunks_exact(2).collect::<Vec<_>>()'), ('S', 'split', SH, 0, '{o}.split_at(2)'), ('S', 'subslice', SH, 0, '{o}.subslice(1..3)'),
    ('S', 'subslice_full', SH, 0, '{o}.subslice(..)'), ('S', 'subslice_incl', SH, 0, '{o}.subslice(1..=2)'),
    ('S', 'reborrow', SH, 0, '{o}.reborrow()'), ('S', 'check', SH, 0, '{o}.check::<String>().unwrap()'), ('S', 'clone', SH, 0, '{o}.clone()'),
    ('S', 'into_subslice', SH, 1, '{o}.into_subslice(1..3)'), ('S', 'into_iter', SH, 1, 'It({o}.into_iter())'), ('S', 'into_iter_item', SH, 1, '{o}.into_iter().next()'),
    ('S', 'upcast', SH, 1, '{o}.upcast::<CloneVTable>()'), ('S', 'dyn', SH, 1, 'into_dyn![Slice<dyn HasAll>]({o})'), ('S', 'meta', SH, 1, 'Meta::from({o})'),
    ('S', 'parts', SH, 1, '{o}.into_raw_parts().2'),

    ('M', 'get', SH, 0, '{o}.get(1)'), ('M', 'get_mut', EX, 0, '{o}.get_mut(1)'), ('M', 'get_as', EX, 0, '{o}.get_as::<String>(1)'), ('M', 'iter', EX, 0, 'It({o}.iter())'),
    ('M', 'iter_item', EX, 0, '{o}.iter().next()'), ('M', 'iter_all', EX, 0, '{o}.iter().collect::<Vec<_>>()'), ('M', 'iter_as', EX, 0, 'It({o}.iter_as::<String>().unwrap())'),
    ('M', 'as_slice', EX, 0, '{o}.as_slice::<String>()'), ('M', 'chunks', SH, 0, 'It({o}.chunks_exact(2))'), ('M', 'chunks_mut', EX, 0, 'It({o}.chunks_exact_mut(2))'),
    ('M', 'chunks_mut_all', EX, 0, '{o}.chunks_exact_mut(2).collect::<Vec<_>>()'), ('M', 'split', EX, 0, '{o}.split_at(2)'), ('M', 'split_first', EX, 0, '{o}.split_at(2).0'),
    ('M', 'split_second', EX, 0, '{o}.split_at(2).1'),
    ('M', 'subslice', SH, 0, '{o}.subslice(1..3)'), ('M', 'subslice_mut', EX, 0, '{o}.subslice_mut(1..3)'), ('M', 'subslice_mut_full', EX, 0, '{o}.subslice_mut(..)'),
    ('M', 'reborrow', SH, 0, '{o}.reborrow()'), ('M', 'reborrow_mut', EX, 0, '{o}.reborrow_mut()'), ('M', 'check', EX, 0, '{o}.check::<String>().unwrap()'),
    ('M', 'slice_from_ref', SH, 0, 'Slice::from(&{o})'), ('M', 'clone_from_slice', EX, 0, '{o}.clone_from_slice(&strings()).unwrap()'),
    ('M', 'get_clone', SH, 0, '{o}.get(1).clone()'), ('M', 'reborrow_clone', SH, 0, '{o}.reborrow().clone()'), ('M', 'reborrow_items', SH, 0, 'It({o}.reborrow().into_iter())'),
    ('M', 'into_subslice', EX, 1, '{o}.into_subslice(1..3)'), ('M', 'into_iter', EX, 1, 'It({o}.into_iter())'), ('M', 'into_iter_item', EX, 1, '{o}.into_iter().next()'),
    ('M', 'into_iter_all', EX, 1, '{o}.into_iter().collect::<Vec<_>>()'), ('M', 'upcast', EX, 1, '{o}.upcast::<CloneVTable>()'), ('M', 'dyn', EX, 1, 'into_dyn![SliceMut<dyn HasAll>]({o})'),
    ('M', 'into_slice', EX, 1, 'Slice::from({o})'), ('M', 'meta', EX, 1, 'Meta::from({o})'), ('M', 'parts', EX, 1, '{o}.into_raw_parts().2'),

    ('SC', 'get', SH, 0, '{o}.get(1)'), ('SC', 'get_as', SH, 0, '{o}.get_as::<u64>(1)'), ('SC', 'iter', SH, 0, 'It({o}.iter())'), ('SC', 'iter_item', SH, 0, '{o}.iter().next()'),
    ('SC', 'iter_as', SH, 0, 'It({o}.iter_as::<u64>().unwrap())'), ('SC', 'as_slice', SH, 0, '{o}.as_slice::<u64>()'), ('SC', 'chunks', SH, 0, 'It({o}.chunks_exact(2))'),
    ('SC', 'split', SH, 0, '{o}.split_at(2)'), ('SC', 'subslice', SH, 0, '{o}.subslice(1..3)'), ('SC', 'reborrow', SH, 0, '{o}.reborrow()'), ('SC', 'check', SH, 0, '{o}.check::<u64>().unwrap()'),
    ('SC', 'into_subslice', SH, 1, '{o}.into_subslice(1..3)'), ('SC', 'into_iter', SH, 1, 'It({o}.into_iter())'), ('SC', 'into_iter_item', SH, 1, '{o}.into_iter().next()'),
    ('SC', 'upcast', SH, 1, '{o}.upcast::<CloneVTable>()'), ('SC', 'dyn', SH, 1, 'into_dyn![SliceCopy<dyn HasAll>]({o})'), ('SC', 'meta', SH, 1, 'Meta::from({o})'), ('SC', 'parts', SH, 1, '{o}.into_raw_parts().2'),

    ('MC', 'get', SH, 0, '{o}.get(1)'), ('MC', 'get_mut', EX, 0, '{o}.get_mut(1)'), ('MC', 'get_as', EX, 0, '{o}.get_as::<u64>(1)'), ('MC', 'iter', EX, 0, 'It({o}.iter())'),
    ('MC', 'iter_item', EX, 0, '{o}.iter().next()'), ('MC', 'iter_all', EX, 0, '{o}.iter().collect::<Vec<_>>()'), ('MC', 'iter_as', EX, 0, 'It({o}.iter_as::<u64>().unwrap())'),
    ('MC', 'as_slice', EX, 0, '{o}.as_slice::<u64>()'), ('MC', 'chunks', SH, 0, 'It({o}.chunks_exact(2))'), ('MC', 'chunks_mut', EX, 0, 'It({o}.chunks_exact_mut(2))'),
    ('MC', 'chunks_mut_all', EX, 0, '{o}.chunks_exact_mut(2).collect::<Vec<_>>()'), ('MC', 'split', EX, 0, '{o}.split_at(2)'), ('MC', 'split_first', EX, 0, '{o}.split_at(2).0'),
    ('MC', 'split_second', EX, 0, '{o}.split_at(2).1'), ('MC', 'subslice', SH, 0, '{o}.subslice(1..3)'), ('MC', 'subslice_mut', EX, 0, '{o}.subslice_mut(1..3)'),
    ('MC', 'reborrow', SH, 0, '{o}.reborrow()'), ('MC', 'reborrow_mut', EX, 0, '{o}.reborrow_mut()'), ('MC', 'check', EX, 0, '{o}.check::<u64>().unwrap()'),
    ('MC', 'copy_from_slice', EX, 0, '{o}.copy_from_slice(&[7u64, 8, 9, 10]).unwrap()'),
    ('MC', 'into_subslice', EX, 1, '{o}.into_subslice(1..3)'), ('MC', 'into_iter', EX, 1, 'It({o}.into_iter())'), ('MC', 'into_iter_item', EX, 1, '{o}.into_iter().next()'),
    ('MC', 'into_iter_all', EX, 1, '{o}.into_iter().collect::<Vec<_>>()'), ('MC', 'upcast', EX, 1, '{o}.upcast::<CloneVTable>()'), ('MC', 'dyn', EX, 1, 'into_dyn![SliceCopyMut<dyn HasAll>]({o})'),
    ('MC', 'meta', EX, 1, 'Meta::from({o})'), ('MC', 'parts', EX, 1, '{o}.into_raw_parts().2'),

    ('R', 'reborrow', SH, 0, '{o}.reborrow()'), ('R', 'upcast_ref', SH, 0, '{o}.upcast_ref::<CloneVTable>()'), ('R', 'clone', SH, 0, '{o}.clone()'), ('R', 'clone_upcast', SH, 0, '{o}.clone().upcast::<CloneVTable>()'),
    ('R', 'upcast', SH, 1, '{o}.upcast::<CloneVTable>()'), ('R', 'downcast', SH, 1, '{o}.downcast::<String>()'), ('R', 'meta', SH, 1, 'Meta::from({o})'), ('R', 'reborrow_downcast', SH, 0, '{o}.reborrow().downcast::<String>()'),

    ('W', 'reborrow', SH, 0, '{o}.reborrow()'), ('W', 'reborrow_mut', EX, 0, '{o}.reborrow_mut()'), ('W', 'upcast_mut', EX, 0, '{o}.upcast_mut::<CloneVTable>()'),
    ('W', 'reborrow_downcast', SH, 0, '{o}.reborrow().downcast::<String>()'), ('W', 'reborrow_mut_downcast', EX, 0, '{o}.reborrow_mut().downcast::<String>()'),
    ('W', 'reborrow_clone', SH, 0, '{o}.reborrow().clone()'), ('W', 'reborrow_mut_into_ref', EX, 0, 'ValueRef::from({o}.reborrow_mut())'),
    ('W', 'upcast', EX, 1, '{o}.upcast::<CloneVTable>()'), ('W', 'downcast', EX, 1, '{o}.downcast::<String>()'), ('W', 'into_ref', EX, 1, 'ValueRef::from({o})'), ('W', 'meta', EX, 1, 'Meta::from({o})'),

    ('RC', 'upcast_ref', SH, 0, '{o}.upcast_ref::<CloneVTable>()'), ('RC', 'upcast', SH, 1, '{o}.upcast::<CloneVTable>()'), ('RC', 'downcast', SH, 1, '{o}.downcast::<u64>()'),
    ('RC', 'value_ref', SH, 1, 'ValueRef::from({o})'), ('RC', 'meta', SH, 1, 'Meta::from({o})'),
    ('WC', 'upcast', EX, 0, '{o}.upcast::<CloneVTable>()'), ('WC', 'downcast', EX, 1, '{o}.downcast::<u64>()'), ('WC', 'into_ref', EX, 1, 'CopyValueRef::from({o})'), ('WC', 'value_mut', EX, 1, 'ValueMut::from({o})'),
    ('WC', 'copy', EX, 1, '{o}.copy(CopyValueRef::new(&9u64)).unwrap()'),
]

# Everything that changes a container or a view, against a reference that is still in use.
CHANGES = {
    'vec': ['{o}.push_as(string());', '{o}.clear();', '{o}.resize(1, string());', '{o}.resize(100, string());', '{o}.fill(string());', '{o}.rotate_left(1);', '{o}.rotate_right(1);',
            '{o}.append(&mut VecDyn::<V>::from_vec(strings()));', 'VecDyn::<V>::from_vec(strings()).append(&mut {o});', '{o}.push(BoxValue::<V>::new(string()));', '{o}.push_cloned(ValueRef::new(&string()));',
            '{o} = VecDyn::from_vec(strings());', 'std::mem::take({o}.as_mut_slice_as::<String>().unwrap().first_mut().unwrap());', 'drop({o}.into_vec::<String>());', 'drop({o}.upcast::<DropVTable>());',
            'drop({o}.check::<u64>());', '{o}.clone_from(&VecDyn::from_vec(strings()));', 'drop(into_dyn![VecDyn<dyn HasAll>]({o}));', 'drop(Option::<Vec<String>>::from({o}));',
            'std::mem::swap(&mut {o}, &mut VecDyn::from_vec(strings()));', 'drop({o}.get_mut(1).downcast::<String>().map(|s| s.clear()));', '{o}.get_mut(1).assign(BoxValue::new(string()));',
            '{o}.as_mut_slice().swap(0, 1);', '{o}.as_mut_slice().clone_from_slice(&strings());', '{o}.get_mut(1).clone_from_other(ValueRef::new(&string()));', 'for mut y in {o}.iter_mut() {{ y.u() }}', 'std::thread::spawn(move || drop({o}));'],
    'copy': ['{o}.push_as(7u64);', '{o}.clear();', '{o}.resize(1, 7u64);', '{o}.resize(100, 7u64);', '{o}.reserve(1000);', '{o}.fill(7u64);', '{o}.rotate_left(1);', '{o}.rotate_right(1);', '{o}.copy_from_slice(&[7u64; 4]);',
             '{o}.append(&mut VecCopy::<V>::from_vec(numbers()));', 'VecCopy::<V>::from_vec(numbers()).append(&mut {o});', '{o}.push(CopyValueRef::<V>::new(&7u64));', '{o}.extend(std::iter::once(CopyValueRef::<V>::new(&7u64)));',
             '{o} = VecCopy::from_vec(numbers());', 'drop({o}.into_vec::<u64>());', 'drop({o}.upcast::<CloneVTable>());', 'drop({o}.check::<u8>());', 'drop(into_dyn![VecCopy<dyn HasAll>]({o}));', 'drop({o}.into_raw_parts());',
             '{o}.as_mut_slice().swap(0, 1);', '{o}.get_mut(1).u();', 'for mut y in {o}.iter_mut() {{ y.u() }}', '{o}.as_mut_slice_as::<u64>().u();', 'drop({o}.upcast_with(|v| v));'],
    'slice_mut': ['{o}.swap(0, 1);', '{o}.rotate_left(1);', '{o}.rotate_right(1);', '{o}.clone_from_slice(&strings());', '{o}.get_mut(1).u();', '{o}.get_as::<String>(1).u();', 'for mut y in {o}.iter() {{ y.u() }}',
                  'for mut y in {o}.chunks_exact_mut(2) {{ y.u() }}', '{o}.subslice_mut(..).u();', '{o}.reborrow_mut().u();', '{o}.split_at(2).u();', 'drop({o}.as_slice::<String>().map(|s| s[1].clear()));', '{o}.into_subslice(..).u();'],
    'copy_slice_mut': ['{o}.swap(0, 1);', '{o}.rotate_left(1);', '{o}.rotate_right(1);', '{o}.copy_from_slice(&numbers());', '{o}.get_mut(1).u();', '{o}.get_as::<u64>(1).u();', 'for mut y in {o}.iter() {{ y.u() }}',
                       'for mut y in {o}.chunks_exact_mut(2) {{ y.u() }}', '{o}.subslice_mut(..).u();', '{o}.reborrow_mut().u();', '{o}.split_at(2).u();', '{o}.into_subslice(..).u();'],
    'mut': ['{o}.assign(BoxValue::new(string()));', '{o}.assign(SmallValue::new(5u64));', '{o}.clone_from_other(ValueRef::new(&string()));', '{o}.swap(&mut ValueMut::new(&mut string()));', '{o}.upcast_mut::<CloneVTable>().u();', '{o}.reborrow_mut().u();', '{o}.downcast::<String>().u();'],
    'copy_mut': ['{o}.swap(&mut CopyValueMut::new(&mut 5u64));', '{o}.upcast::<V>().u();', '{o}.downcast::<u64>().u();', '{o}.copy(CopyValueRef::new(&5u64));'],
    'boxed': ['{o}.as_mut().assign(BoxValue::new(string()));', '{o} = BoxValue::new(string());', 'drop({o}.downcast::<String>());', 'drop({o}.upcast::<CloneVTable>());', '{o}.as_mut().swap(&mut ValueMut::new(&mut string()));', 'VecDyn::<V>::from_vec(strings()).push({o});',
              'ValueMut::<V>::new(&mut string()).assign({o});'],
    'small': ['{o}.as_mut().assign(BoxValue::new(7u64));', '{o} = SmallValue::new(7u64);', 'drop({o}.downcast::<u64>());', 'drop({o}.upcast::<CloneVTable>());', 'ValueMut::<V>::new(&mut 7u64).assign({o});'],
}
WATCH = {'vec': '{o}.get(1)', 'copy': '{o}.get_ref(1)', 'slice_mut': '{o}.get(1)', 'copy_slice_mut': '{o}.get(1)', 'mut': '{o}.reborrow()', 'copy_mut': '{o}.upcast::<V>()', 'boxed': '{o}.as_ref()', 'small': '{o}.as_ref()'}

# Elements that would outlive what they point to: (name, hostile, correct).
ELEMENTS = [
    ('from_vec', 'VecDyn::<V>::from_vec(vec![&s, &s])'), ('from_slice', 'VecDyn::<V>::from_slice(&[&s])'), ('with_size', 'VecDyn::<V>::with_size(2, &s)'),
    ('from', 'VecDyn::<V>::from(vec![&s])'), ('copy_from_vec', 'VecCopy::<V>::from_vec(vec![&s, &s])'), ('copy_from_slice', 'VecCopy::<V>::from_slice(&[&s])'),
    ('copy_with_size', 'VecCopy::<V>::with_size(2, &s)'), ('boxed', 'BoxValue::<V>::new(&s)'), ('small', 'SmallValue::<V>::new(&s)'), ('small_try', 'SmallValue::<V>::try_new(&s)'),
    ('ref', 'ValueRef::<V>::new(&&s).clone_value()'), ('copy_ref', 'std::iter::once(CopyValueRef::<V>::new(&&s)).collect::<VecCopy<V>>()'),
    ('slice', 'Slice::<V>::from_slice(&[&s]).clone_into_vec::<&String>()'), ('slice_copy', 'SliceCopy::<V>::from_slice(&[&s]).copy_into_vec::<&String>()'),
    ('push_as', '{ let mut v = VecDyn::<V>::with_type::<&String>(); v.push_as(&s); v }'), ('copy_push_as', '{ let mut v = VecCopy::<V>::with_type::<&String>(); v.push_as(&s); v }'),
    ('resize', '{ let mut v = VecDyn::<V>::with_type::<&String>(); v.resize(3, &s); v }'), ('copy_resize', '{ let mut v = VecCopy::<V>::with_type::<&String>(); v.resize(3, &s); v }'),
    ('fill', '{ let mut v = VecDyn::<V>::from_vec(vec![&string_static(); 3]); v.fill(&s); v }'), ('copy_fill', '{ let mut v = VecCopy::<V>::from_vec(vec![&string_static(); 3]); v.fill(&s); v }'),
    ('assign', '{ let mut v = BoxValue::<V>::new(string_static()); v.as_mut().assign(BoxValue::new(&s)); v }'),
    ('clone_from_other', '{ let mut v = BoxValue::<V>::new(string_static()); v.as_mut().clone_from_other(ValueRef::new(&&s)).unwrap(); v }'),
    ('write', '{ let mut v = VecDyn::<V>::from_vec(vec![string_static(); 3]); *v.get_mut_as::<&String>(0).unwrap() = &s; v }'),
    ('write_slice', '{ let mut v = VecDyn::<V>::from_vec(vec![string_static(); 3]); v.as_mut_slice_as::<&String>().unwrap()[0] = &s; v }'),
    ('write_value', '{ let mut v = VecDyn::<V>::from_vec(vec![string_static(); 3]); *v.get_mut(0).downcast::<&String>().unwrap() = &s; v }'),
    ('write_iter', '{ let mut v = VecDyn::<V>::from_vec(vec![string_static(); 3]); for x in v.iter_mut_as::<&String>().unwrap() { *x = &s; } v }'),
    ('clone_from_slice', '{ let mut v = VecDyn::<V>::from_vec(vec![string_static(); 1]); v.as_mut_slice().clone_from_slice(&[&s]); v }'),
    ('copy_write', '{ let mut v = VecCopy::<V>::from_vec(vec![string_static(); 3]); *v.get_mut_as::<&String>(0).unwrap() = &s; v }'),
    ('copy_copy_from_slice', '{ let mut v = VecCopy::<V>::from_vec(vec![string_static(); 1]); v.copy_from_slice(&[&s]); v }'),
]

# Further hostile programs: (name, body).
HOSTILE = [
    ('two_elements', 'let mut v = %s; let mut a = v.get_mut(0); let mut b = v.get_mut(1); a.u(); b.u(); a.u();' % VEC),
    ('copy_two_elements', 'let mut v = %s; let mut a = v.get_mut(0); let mut b = v.get_mut(1); a.u(); b.u(); a.u();' % COPY),
    ('halves_and_whole', 'let mut v = %s; let mut s = v.as_mut_slice(); let (mut a, mut b) = s.split_at(2); s.u(); a.u(); b.u();' % VEC),
    ('half_of_mut_kept', 'let mut v = %s; let mut a = { let mut s = v.as_mut_slice(); let (a, b) = s.split_at(2); a }; let mut w = v.as_mut_slice(); a.u(); w.u(); a.u();' % VEC),
    ('copy_half_of_mut_kept', 'let mut v = %s; let mut a = { let mut s = v.as_mut_slice(); let (a, b) = s.split_at(2); a }; let mut w = v.as_mut_slice(); a.u(); w.u(); a.u();' % COPY),
    ('chunk_kept', 'let mut v = %s; let mut s = v.as_mut_slice(); let mut a = s.chunks_exact_mut(2).next().unwrap(); let mut b = s.chunks_exact_mut(2).next().unwrap(); a.u(); b.u(); a.u();' % VEC),
    ('mut_slice_cloned', 'let mut v = %s; let mut s = v.as_mut_slice(); let mut a = s.reborrow_mut(); let mut b = s.reborrow_mut(); a.u(); b.u(); a.u();' % VEC),
    ('shared_of_mut_and_mut', 'let mut v = %s; let mut s = v.as_mut_slice(); let mut a = Slice::from(&s); let mut b = s.get_mut(0); b.u(); a.u();' % VEC),
    ('shared_of_value_and_mut', 'let mut x = string(); let mut m = ValueMut::<V>::new(&mut x); let mut a = m.reborrow(); m.assign(BoxValue::new(string())); a.u();'),
    ('value_mut_and_original', 'let mut x = string(); let mut m = ValueMut::<V>::new(&mut x); x.push(\'y\'); m.u();'),
    ('value_ref_and_original', 'let mut x = string(); let mut m = ValueRef::<V>::new(&x); x = string(); m.u();'),
    ('downcast_twice', 'let mut x = string(); let mut m = ValueMut::<V>::new(&mut x); let a = m.reborrow_mut().downcast::<String>().unwrap(); let b = m.reborrow_mut().downcast::<String>().unwrap(); a.push(\'x\'); b.push(\'x\'); a.push(\'y\');'),
    ('copy_upcast_twice', 'let mut x = 5u64; let mut m = CopyValueMut::<V>::new(&mut x); let a = m.upcast::<V>().downcast::<u64>().unwrap(); let b = m.upcast::<V>().downcast::<u64>().unwrap(); *a += 1; *b += 1; *a += 1;'),
    ('swap_with_itself', 'let mut v = %s; let mut a = v.get_mut(0); a.swap(&mut v.get_mut(1));' % VEC),
    ('assign_from_itself', 'let mut v = %s; let a = v.get(0); v.get_mut(0).clone_from_other(a);' % VEC),
    ('copy_from_itself', 'let mut v = %s; let s = v.as_slice_as::<u64>().unwrap(); v.copy_from_slice(s);' % COPY),
    ('push_own_element', 'let mut v = %s; let a = v.get(0); v.push_cloned(a);' % VEC),
    ('copy_push_own_element', 'let mut v = %s; let a = v.get_ref(0); v.push(a);' % COPY),
    ('append_to_itself', 'let mut v = %s; let w = &mut v; v.append(w);' % VEC),
    ('copy_append_to_itself', 'let mut v = %s; let w = &mut v; v.append(w);' % COPY),
    ('iterate_and_push', 'let mut v = %s; for mut x in v.iter() { v.push_as(string()); x.u(); }' % VEC),
    ('iterate_mut_and_read', 'let mut v = %s; for mut x in v.iter_mut() { let n = v.get(0).downcast::<String>().unwrap(); x.u(); look2(n); }' % VEC),
    ('thread_borrow', 'let v = %s; std::thread::spawn({ let s = v.as_slice(); move || { let mut s = s; s.u() } });' % VEC),
    ('thread_mut_borrow', 'let mut v = %s; std::thread::spawn({ let s = v.as_mut_slice(); move || { let mut s = s; s.u() } });' % VEC),
    ('scoped_alias', 'let mut v = %s; let mut s = v.as_mut_slice(); std::thread::scope(|t| { let mut a = s.subslice_mut(0..3); let mut b = s.subslice_mut(1..4); t.spawn(move || a.u()); t.spawn(move || b.u()); });' % VEC),
    ('stored_in_vec', 'let mut keep: Vec<ValueRef<\'_, V>> = vec![]; { let v = %s; keep.push(v.get(0)); } keep[0].u();' % VEC),
    ('swapped_out', 'let w = string(); let mut a = ValueRef::<V>::new(&w); { let v = %s; let mut b = v.get(0); std::mem::swap(&mut a, &mut b); } a.u();' % VEC),
    ('swapped_out_mut', 'let mut w = string(); let mut a = ValueMut::<V>::new(&mut w); { let mut v = %s; let mut b = v.get_mut(0); std::mem::swap(&mut a, &mut b); } a.u();' % VEC),
    ('replaced_slice', 'let w = strings(); let mut a = Slice::<V>::from_slice(&w); { let v = %s; a = v.as_slice(); } a.u();' % VEC),
    ('dyn_outlives', 'let mut a; { let v = %s; let s = v.as_slice(); a = from_dyn![Slice<dyn HasAll as V>](into_dyn![Slice<dyn HasAll>](s)); } a.u();' % VEC),
    ('static_slice', 'fn keep(s: &\'static [String]) -> &\'static [String] { s } let mut a; { let v = %s; a = keep(v.as_slice_as::<String>().unwrap()); } a.u();' % VEC),
    ('static_value', 'fn keep(s: ValueRef<\'static, V>) -> ValueRef<\'static, V> { s } let mut a; { let v = %s; a = keep(v.get(0)); } a.u();' % VEC),
    ('static_view', 'fn keep(s: Slice<\'static, V>) -> Slice<\'static, V> { s } let mut a; { let v = strings(); a = keep(Slice::from_slice(&v)); } a.u();'),
    ('static_copy_view', 'fn keep(s: SliceCopy<\'static, V>) -> SliceCopy<\'static, V> { s } let mut a; { let v = numbers(); a = keep(SliceCopy::from_slice(&v)); } a.u();'),
    ('static_mut_view', 'fn keep(s: SliceMut<\'static, V>) -> SliceMut<\'static, V> { s } let mut a; { let mut v = strings(); a = keep(SliceMut::from_slice(&mut v)); } a.u();'),
    ('static_copy_mut_view', 'fn keep(s: SliceCopyMut<\'static, V>) -> SliceCopyMut<\'static, V> { s } let mut a; { let mut v = numbers(); a = keep(SliceCopyMut::from_slice(&mut v)); } a.u();'),
    ('table_outlives', 'let mut t; { let v = %s; t = v.vtable(); } t.u();' % VEC),
    ('box_ref_outlives', 'let mut a; { let v = BoxValue::<V>::new(string()); a = ValueRef::from(&v).upcast::<CloneVTable>(); } a.u();'),
    ('longer_copy', 'let mut x = 1u64; let mut m = CopyValueMut::<V>::new(&mut x); { let y = 2u64; m = m.copy(CopyValueRef::new(&y)).unwrap(); } m.u(); let z = m.downcast::<u64>().unwrap(); let k: &\'static mut u64 = z;'),
    ('item_of_dropped_iterator_owner', 'let mut a = { let v = %s; let x = v.iter().next().unwrap(); x }; a.u();' % VEC),
    ('collected_outlives', 'let mut a: Vec<ValueMut<V>> = { let mut v = %s; let x = v.iter_mut().collect(); x }; a.u();' % VEC),
    ('collected_views_outlive', 'let mut a: Vec<SliceMut<V>> = { let mut v = strings(); let mut s = SliceMut::<V>::from_slice(&mut v); let x = s.chunks_exact_mut(2).collect(); x }; a.u();'),
]

# Further correct programs: (name, body).
CORRECT = [
    ('halves', 'let mut v = %s; let mut s = v.as_mut_slice(); { let (mut a, mut b) = s.split_at(2); a.u(); b.u(); a.u(); let c = a.len() + b.len(); assert!(c == 4); } s.u(); v.push_as(string()); v.get(4).u();' % VEC),
    ('copy_halves', 'let mut v = %s; let mut s = v.as_mut_slice(); { let (mut a, mut b) = s.split_at(2); a.u(); b.u(); a.u(); } s.u(); v.push_as(7u64); v.get_ref(4).u();' % COPY),
    ('halves_of_halves', 'let mut v = %s; let mut s = v.as_mut_slice(); let (mut a, mut b) = s.split_at(2); let (mut c, mut d) = a.split_at(1); let (mut e, mut f) = b.split_at(1); for _ in 0..2 { c.u(); f.u(); d.u(); e.u(); }' % VEC),
    ('halves_shared', 'let v = %s; let s = v.as_slice(); let (mut a, mut b) = s.split_at(2); let mut c = s.clone(); let mut d = v.get(1); for _ in 0..2 { a.u(); c.u(); b.u(); d.u(); }' % VEC),
    ('elements_backwards', 'let mut v = %s; let mut all: Vec<_> = v.iter_mut().collect(); for x in all.iter_mut().rev() { x.u(); } for x in all.iter_mut() { x.u(); } let (a, b) = all.split_at_mut(1); a[0].swap(&mut b[0]); a[0].u(); b[0].u(); v.get(0).u();' % VEC),
    ('copy_elements_backwards', 'let mut v = %s; let mut all: Vec<_> = v.iter_mut().collect(); for x in all.iter_mut().rev() { x.u(); } let (a, b) = all.split_at_mut(1); a[0].swap(&mut b[0]); a[0].u(); b[0].u(); v.get_ref(0).u();' % COPY),
    ('chunks', 'let mut v = %s; let mut s = v.as_mut_slice(); let mut all: Vec<_> = s.chunks_exact_mut(1).collect(); for x in all.iter_mut().rev() { x.u(); } for x in all.iter_mut() { x.u(); } v.clear();' % VEC),
    ('copy_chunks', 'let mut v = %s; let mut s = v.as_mut_slice(); let mut all: Vec<_> = s.chunks_exact_mut(1).collect(); for x in all.iter_mut().rev() { x.u(); } for x in all.iter_mut() { x.u(); } v.clear();' % COPY),
    ('reborrows', 'let mut v = %s; let mut s = v.as_mut_slice(); { let mut t = s.reborrow_mut(); { let mut w = t.reborrow_mut(); w.u(); } t.u(); { let mut w = t.subslice_mut(1..); w.u(); } t.u(); } s.u(); s.reborrow().u(); s.u(); v.as_slice().u();' % VEC),
    ('copy_reborrows', 'let mut v = %s; let mut s = v.as_mut_slice(); { let mut t = s.reborrow_mut(); { let mut w = t.reborrow_mut(); w.u(); } t.u(); { let mut w = t.subslice_mut(1..); w.u(); } t.u(); } s.u(); s.reborrow().u(); s.u(); v.as_slice().u();' % COPY),
    ('value_reborrows', 'let mut v = %s; let mut m = v.get_mut(1); { let mut a = m.reborrow_mut(); a.reborrow_mut().u(); a.u(); { let mut b = a.upcast_mut::<CloneVTable>(); b.u(); } a.u(); } m.u(); m.reborrow().u(); m.u(); let s = m.downcast::<String>().unwrap(); s.clear(); assert!(v.get(1).downcast::<String>().unwrap().is_empty());' % VEC),
    ('long_lived_items', 'let v = strings(); let items: Vec<ValueRef<V>> = { let s = Slice::<V>::from_slice(&v); s.into_iter().collect() }; for mut x in items { x.u(); }'),
    ('long_lived_mut_items', 'let mut v = strings(); let items: Vec<ValueMut<V>> = { let s = SliceMut::<V>::from_slice(&mut v); s.into_iter().collect() }; for mut x in items { x.u(); } v.push(string());'),
    ('long_lived_downcast', 'let v = %s; let a: &String = { let x = v.get(1); x.downcast().unwrap() }; let b: &String = { let x = v.as_slice().into_subslice(1..2).into_iter().next().unwrap(); x.downcast().unwrap() }; assert!(std::ptr::eq(a, b));' % VEC),
    ('long_lived_mut_downcast', 'let mut v = %s; let a: &mut String = { let x = v.get_mut(1); x.downcast().unwrap() }; a.push(\'x\'); let b: &mut String = { let x = v.as_mut_slice().into_subslice(1..2).into_iter().next().unwrap(); x.downcast().unwrap() }; b.push(\'y\'); assert!(v.get(1).downcast::<String>().unwrap().ends_with("xy"));' % VEC),
    ('function_returning_view', 'fn tail<\'a>(v: &\'a VecDyn<V>) -> Slice<\'a, V> { v.as_slice().into_subslice(1..) } fn tail_mut<\'a>(v: &\'a mut VecDyn<V>) -> SliceMut<\'a, V> { v.as_mut_slice().into_subslice(1..) } let mut v = %s; tail(&v).u(); tail_mut(&mut v).u(); assert!(tail(&v).len() == 3);' % VEC),
    ('function_returning_value', 'fn first<\'a>(v: &\'a VecDyn<V>) -> ValueRef<\'a, V> { v.get(0) } fn first_mut<\'a>(v: &\'a mut VecDyn<V>) -> ValueMut<\'a, V> { v.get_mut(0) } let mut v = %s; first(&v).u(); first_mut(&mut v).u(); first(&v).u();' % VEC),
    ('function_longer', 'fn longer<\'a>(a: ValueRef<\'a, V>, b: ValueRef<\'a, V>) -> ValueRef<\'a, V> { if a.size() > 100 { a } else { b } } let v = %s; { let w = string(); longer(v.get(0), ValueRef::new(&w)).u(); }' % VEC),
    ('function_both_views', 'fn both<\'a>(a: Slice<\'a, V>, b: Slice<\'a, V>) -> Vec<ValueRef<\'a, V>> { a.into_iter().chain(b.into_iter()).collect() } let v = %s; { let w = strings(); both(v.as_slice(), Slice::from_slice(&w)).u(); }' % VEC),
    ('shorter_static', 'static S: u64 = 5; let x: CopyValueRef<\'static, V> = CopyValueRef::new(&S); fn pick<\'a>(a: CopyValueRef<\'a, V>, b: CopyValueRef<\'a, V>) -> CopyValueRef<\'a, V> { b } let y = 6u64; pick(x, CopyValueRef::new(&y)).u();'),
    ('swap_between', 'let mut v = %s; let mut w = %s; v.get_mut(0).swap(&mut w.get_mut(1)); v.get_mut(0).u(); w.get_mut(1).u(); let mut x = string(); v.get_mut(0).swap(&mut ValueMut::new(&mut x)); x.u();' % (VEC, VEC)),
    ('assign_between', 'let mut v = %s; let w = %s; v.get_mut(0).clone_from_other(w.get(1)).unwrap(); v.push_cloned(w.get(2)); drop(w); v.as_slice().u();' % (VEC, VEC)),
    ('copy_between', 'let mut v = %s; let w = %s; v.get_mut(0).copy(w.get_ref(3)); v.push(w.get_ref(2)); v.extend(w.iter()); drop(w); v.as_slice().u();' % (COPY, COPY)),
    ('clone_of_element', 'let mut v = %s; let mut x = v.get(0).clone_value(); v.clear(); x.as_mut().u(); v.push(x); v.as_slice().u();' % VEC),
    ('typed_and_erased', 'let mut v = strings(); { let mut s = SliceMut::<V>::from_slice(&mut v); s.u(); } v[0].u(); { let mut s = Slice::<V>::from_slice(&v); let y = &v; s.u(); assert!(y.len() == 4); s.u(); } v.push(string()); ValueMut::<V>::new(&mut v[4]).u(); v[4].u();'),
    ('threads', 'let mut v = %s; let mut s = v.as_mut_slice(); { let (mut a, mut b) = s.split_at(2); std::thread::scope(|t| { t.spawn(move || a.u()); t.spawn(move || b.u()); }); } s.u(); let r = v.as_slice(); std::thread::scope(|t| { for _ in 0..2 { let mut r = r.clone(); t.spawn(move || r.u()); } });' % VEC),
    ('views_across_kinds', 'let mut v = %s; let s = v.as_mut_slice(); let mut t: Slice<V> = s.into(); t.u(); let mut d = into_dyn![Slice<dyn HasAll>](t); d.u(); let mut b = from_dyn![Slice<dyn HasAll as V>](d); b.u(); let mut c = b.upcast::<CloneVTable>(); c.u(); v.push_as(string());' % VEC),
    ('meta_used_up', 'let mut v = %s; let mut w = { let m = Meta::from(&v); VecDyn::<V>::with_type_from(m) }; let k = VecDyn::<V>::with_type_from(v.get(0)); let l = VecDyn::<V>::with_type_from(v.as_slice()); v.clear(); drop(v); w.push_as(string()); w.as_slice().u(); drop((k, l));' % VEC),
    ('options', 'let mut v = %s; if let Some(s) = v.as_mut_slice_as::<u64>() { s[0] = 1; } else if let Some(s) = v.as_mut_slice_as::<String>() { s[0].u(); } v.push_as(string());' % VEC),
    ('chained', 'let mut v = VecDyn::<V>::with_type::<String>(); v.push_as(string()).unwrap().push_as(string()).unwrap().check_mut::<String>().unwrap().resize(9, string()).unwrap().get_mut(8).u(); assert!(v.len() == 9);'),
    ('table_borrowed', 'let v = %s; let t = v.vtable(); let s = v.as_slice(); let f = *t.drop_fn(); for mut x in s.iter() { x.u(); } black_box(*t.fmt_fn()); black_box(f);' % VEC),
    ('iterators_side_by_side', 'let mut v = %s; { let mut a = v.iter(); let mut b = v.iter(); let x = a.next(); let y = b.next(); a.next().u(); (x, y).u(); b.next().u(); } { let mut a = v.iter_mut(); let mut x = a.next(); let mut y = a.next(); x.u(); y.u(); x.u(); }' % VEC),
]


def programs():
    """(hostile, control): dicts from name to function body."""
    hostile, control = {}, {}

    def setup(w, again=False):
        return ('' if again else 'let mut b = %s;' % w.base) + (' let mut o = %s;' % w.view if w.view else '')
    for w in OWNERS.values():
        o = 'o' if w.view else 'b'
        for kind, name, how, uses_up, make in MAKES:
            if kind != w.holds:
                continue
            if w.name in ('mut_of_small',):
                make = make.replace('String', 'u64')
            mk = make.format(o=o)
            n = '%s__%s' % (w.name, name)
            # Outlives the storage.
            hostile[n + '__outlives'] = 'let mut x; { %s x = %s; } x.u();' % (setup(w), mk)
            hostile[n + '__freed'] = '%s let mut x = %s; drop(b); x.u();' % (setup(w), mk)
            hostile[n + '__changed'] = '%s let mut x = %s; %s x.u();' % (setup(w), mk, w.change_base.format())
            if w.change and w.view and not uses_up:
                hostile[n + '__changed_view'] = '%s let mut x = %s; %s x.u();' % (setup(w), mk, w.change.format(o=o))
            if how == EX and not uses_up:
                hostile[n + '__twice'] = '%s let mut x = %s; let mut y = %s; x.u(); y.u(); x.u();' % (setup(w), mk, mk)
                hostile[n + '__read'] = '%s let mut x = %s; let mut y = %s; x.u(); y.u(); x.u();' % (setup(w), mk, w.read.format(o=o))
            if uses_up and how == EX:
                # The view is gone, the storage is still borrowed.
                hostile[n + '__again'] = '%s let mut x = %s; let mut o = %s; let mut y = %s; x.u(); y.u(); x.u();' % (setup(w), mk, w.view, mk)
            if how == EX and w.view:
                hostile[n + '__view_used'] = '%s let mut x = %s; let mut y = %s; x.u(); y.u(); x.u();' % (setup(w), mk, w.read.format(o=o))
            # In turn.
            if uses_up:
                body = 'let mut b = %s; { let mut x = { let mut o = %s; %s }; x.u(); x.u(); } { let mut x = { let mut o = %s; %s }; x.u(); }' % (w.base, w.view, mk, w.view, mk)
            else:
                body = 'let mut b = %s; { %s { let mut x = %s; x.u(); x.u(); } %s { let mut x = %s; x.u(); } let mut r = %s; r.u(); }' % (
                    w.base, setup(w, True), mk, (w.change or '').format(o=o), mk, w.read.format(o=o))
            control[n + '__in_turn'] = body + ' %s drop(b);' % w.change_base.format()
            if how == SH and not uses_up:
                control[n + '__together'] = '%s { let mut x = %s; let mut y = %s; %s x.u(); y.u(); x.u(); } drop(b);' % (
                    setup(w), mk, mk, 'let mut r = %s; r.u();' % w.read.format(o=o) if w.holds not in ('WC',) else '')
    for k, cs in CHANGES.items():
        w = OWNERS[k]
        o = 'o' if w.view else 'b'
        for i, ch in enumerate(cs):
            hostile['%s__change_%d' % (k, i)] = '%s let mut x = %s; %s x.u();' % (setup(w), WATCH[k].format(o=o), ch.format(o=o))
            control['%s__change_%d' % (k, i)] = '%s { let mut x = %s; x.u(); } %s' % (setup(w), WATCH[k].format(o=o), ch.format(o=o))
    for n, e in ELEMENTS:
        e = e.replace('&string_static()', 'string_static()')
        hostile['element__' + n] = 'let x; { let s = string(); x = %s; } see(&x);' % e
        control['element__' + n] = 'let s: &\'static String = string_static(); let x = %s; see(&x);' % e.replace('&&s', '&s').replace(' &s', ' s').replace('(&s', '(s').replace('[&s', '[s').replace('ValueRef::new(s)', 'ValueRef::new(&s)').replace('ValueRef::<V>::new(s)', 'ValueRef::<V>::new(&s)')
    for n, b in HOSTILE:
        hostile['program__' + n] = b
    for n, b in CORRECT:
        control['program__' + n] = b
    return hostile, control


BORROW = {'E0499', 'E0502', 'E0505', 'E0506', 'E0515', 'E0597', 'E0716', 'E0382', 'E0503', 'E0713', 'E0521', 'E0373', 'E0381', 'E0384', 'E0594', 'E0596', 'E0507'}


def write(path, progs, main):
    """One function per program; returns the names by line."""
    lines = ['#![allow(dead_code, unused_variables, unused_mut, unused_imports, unused_assignments, unused_must_use, mismatched_lifetime_syntaxes)]', 'include!("../help.rs");']
    at = {}
    for n, body in progs.items():
        lines.append('fn %s() { %s }' % (n, body))
        at[len(lines)] = n
    lines.append(main)
    text = '\n'.join(lines) + '\n'
    try:
        if open(path).read() == text:
            return at
    except OSError:
        pass
    open(path, 'w').write(text)
    return at


def main_of(progs):
    return 'fn main() {\n    let a: Vec<String> = std::env::args().collect();\n    run(&a[1..], &[%s]);\n}' % ', '.join('("%s", %s as fn())' % (n, n) for n in progs)


def check(c):
    """Which hostile programs come into existence, and what do they and the correct ones do?"""
    import __main__ as ck
    import json, os, re, time
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(ck.TARGET, 'borrow')
    os.makedirs(os.path.join(d, 'src', 'bin'), exist_ok=True)
    toml = '''[package]
name = "borrow"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
dync = { path = "/repo" , default-features = false, features = ["traits"] }

[profile.dev]
debug = 0
opt-level = 0
incremental = false
'''
    for p, t in (('Cargo.toml', toml), ('src/help.rs', HELP)):
        p = os.path.join(d, p)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, 'w').write(t)
    for f in os.listdir(os.path.join(d, 'src', 'bin')):
        if f.startswith('accepted'):
            os.remove(os.path.join(d, 'src', 'bin', f))
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock):
        open(lock, 'w').write(open(os.path.join(ck.HARNESS, 'Cargo.lock')).read().replace('name = "mon"', 'name = "borrow"'))
    hostile, control = programs()

    def env(flav):
        e = ck.env_for(flav)
        e['CARGO_TARGET_DIR'] = os.path.join(ck.TARGET, 'borrow-' + ('miri' if flav.startswith('miri') else 'dbg'))
        return e

    def errors(bin_, at, flav='dbg'):
        """{program: [(code, message)]} of the errors of one binary, and those that belong to none."""
        r = ck.run(['cargo', 'check', '--offline', '--quiet', '--message-format=json', '--bin', bin_], cwd=d, env=env(flav), timeout=700)
        per, rest = {}, []
        for l in r['out'].splitlines():
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('reason') != 'compiler-message':
                continue
            m = m['message']
            if m['level'] != 'error':
                continue
            sp = [s for s in m['spans'] if s['is_primary']] or m['spans']
            name = None
            for s in sp:
                while s:
                    if s['file_name'].endswith(bin_ + '.rs') and s['line_start'] in at:
                        name = at[s['line_start']]
                    s = (s.get('expansion') or {}).get('span')
                if name:
                    break
            code = (m.get('code') or {}).get('code')
            if name:
                per.setdefault(name, []).append((code, m['message']))
            elif not m['message'].startswith(('aborting due to', 'could not compile')):
                rest.append((code, m['message']))
        if not per and not rest and r['rc'] != 0:
            rest.append((None, r['err'][-1500:]))
        return per, rest

    def is_borrow(e):
        return e[0] in BORROW or (e[0] is None and ('lifetime may not live long enough' in e[1] or 'borrowed data escapes' in e[1] or 'implementation of' in e[1] and 'not general enough' in e[1]))

    BIN = os.path.join(d, 'src', 'bin')
    hat = write(os.path.join(BIN, 'hostile.rs'), hostile, main_of([]))
    per, rest = errors('hostile', hat)
    if rest:
        raise ck.Inconclusive('hostile programs: ' + str(rest[:3])[:1500])
    odd = {n: [e for e in es if not is_borrow(e)] for n, es in per.items() if any(not is_borrow(e) for e in es)}
    if odd:
        c.problem('%d hostile programs fail for another reason, e.g. %s' % (len(odd), list(odd.items())[:3]))
    accepted = {n: hostile[n] for n in hostile if n not in per}
    reasons = {}
    for n, es in per.items():
        for k in {e[0] or e[1] for e in es}:
            reasons[k] = reasons.get(k, 0) + 1

    # Correct programs that are rejected.
    cat = write(os.path.join(BIN, 'control.rs'), control, main_of(control))
    cper, crest = errors('control', cat)
    if crest:
        raise ck.Inconclusive('correct programs: ' + str(crest[:3])[:1500])
    for n, es in cper.items():
        if any(is_borrow(e) for e in es):
            c.violation('control/%s#0: a correct program is rejected: %s; the program: %s' % (n, es[0], control[n]), 'dbg', None,
                        'cd %s && CARGO_TARGET_DIR=%s cargo check --offline --bin control 2>&1 | grep -v ^warning' % (d, env('dbg')['CARGO_TARGET_DIR']), 'control/%s#0' % n, [])
        else:
            c.problem('correct program %s does not compile: %s' % (n, es[:2]))
    good = {n: b for n, b in control.items() if n not in cper}
    if cper:
        write(os.path.join(BIN, 'control.rs'), good, main_of(good))

    def execute(bin_, progs, flav, shards, one_by_one, timeout):
        """Runs programs; returns {name: what went wrong} and the number of those that ended well."""
        e = env(flav)
        cmd = ['cargo'] + (['+nightly', 'miri'] if flav.startswith('miri') else []) + ['run', '--offline', '--quiet', '--bin', bin_, '--']
        w = ck.run(cmd + ['none'], cwd=d, env=e, timeout=700)
        if w['rc'] != 0:
            raise ck.Inconclusive('%s does not build (%s): %s' % (bin_, flav, w['err'][-1500:]))
        names = list(progs)
        parts = [[n] for n in names] if one_by_one else [names[i::shards] for i in range(shards)]
        bad, ok = {}, 0

        def part(ns):
            todo, out, n_ok = list(ns), [], 0
            while todo:
                r = ck.SEM_RUN(lambda *a: ck.run(*a[:-1], cwd=d, env=e, timeout=a[-1]), cmd + todo, timeout)
                done = re.findall(r'^DONE (\w+)$', r['err'] + r['out'], re.M)
                n_ok += len(done)
                c.runs.append(dict(bin='borrow/' + bin_, flavour=flav, seconds=round(r['t'], 1), verdict='ended with %s' % r['rc'], args='%d programs' % len(todo)))
                if len(done) == len(todo) and r['rc'] == 0:
                    break
                if len(done) == len(todo):
                    # After the last one: leaked memory and the like.
                    out.append((todo[-1], r))
                    break
                out.append((todo[len(done)], r))
                todo = todo[len(done) + 1:]
                if len(out) > 3:
                    break
            return out, n_ok
        with ThreadPoolExecutor(max_workers=8) as ex:
            for out, n in ex.map(part, parts):
                ok += n
                bad.update(dict(out))
        return bad, ok

    ub = re.compile(r'^error: (Undefined Behavior.*|memory leaked.*|.*[Dd]ata race.*|.*deadlock.*)$', re.M)
    # Hostile programs that were accepted.
    harmless = 0
    if accepted:
        write(os.path.join(BIN, 'accepted.rs'), accepted, main_of(accepted))
        few = dict(list(accepted.items())[:60])
        bad, ok = execute('accepted', few, 'miri-tree', 8, True, 200)
        harmless = ok
        for n, r in sorted(bad.items())[:8]:
            m = ub.search(r['err'])
            if m:
                c.violation('hostile/%s#0: accepted by the compiler, and under Miri: %s; the program: %s' % (n, m.group(1)[:300], accepted[n]), 'dbg', None,
                            'cd %s && CARGO_TARGET_DIR=%s MIRIFLAGS="%s" cargo +nightly miri run --offline --quiet --bin accepted -- %s' % (d, env('miri-tree')['CARGO_TARGET_DIR'], ck.MIRI_TREE, n), 'hostile/%s#0' % n, [])
            elif r['timeout']:
                c.problem('hostile program %s: watchdog fired' % n)
    # Correct programs, natively and under Miri.
    done = {}
    for flav, shards in (('dbg', 2), ('miri-tree', 8)) + ((('miri-stack', 8),) if c.tier != 'quick' else ()):
        bad, ok = execute('control', good, flav, shards, False, 600 if c.tier == 'quick' else 2400)
        done[flav] = ok
        for n, r in sorted(bad.items())[:8]:
            if r['timeout']:
                c.problem('correct programs (%s): watchdog fired in %s' % (flav, n))
                continue
            m = ub.search(r['err'])
            what = m.group(1)[:300] if m else 'ended with %s: %s' % (r['rc'], (re.findall(r'panicked at.*\n.*', r['err']) or [r['err'][-300:]])[-1])
            c.violation('control/%s#0: a correct program goes wrong (%s): %s; the program: %s' % (n, flav, what, good[n]), 'dbg', None,
                        'cd %s && CARGO_TARGET_DIR=%s MIRIFLAGS="%s" cargo %s run --offline --quiet --bin control -- %s' % (
                            d, env(flav)['CARGO_TARGET_DIR'], env(flav).get('MIRIFLAGS', ''), '+nightly miri' if 'miri' in flav else '', n), 'control/%s#0' % n, [])
    total = len(hostile) + sum(done.values())
    kinds = {}
    for n in hostile:
        k = n.split('__')
        k = 'hostile: ' + (k[-1] if k[0] in OWNERS and len(k) == 3 else k[0] if k[0] not in OWNERS else 'changed while in use')
        kinds[k] = kinds.get(k, 0) + 1
    ev = {'hostile programs': len(hostile), 'hostile programs rejected': len(per), 'hostile programs accepted': len(accepted), 'accepted without harm seen': harmless, 'correct programs': len(control)}
    ev.update({'correct programs run (%s)' % k: v for k, v in done.items()})
    ev.update({'rejected: %s' % k: v for k, v in reasons.items()})
    c.results.append(('dbg', 'borrow', dict(evaluations=total, distinct=len(hostile) + len(control), observations=total, events=ev, suites=kinds,
                                            samples=['hostile/%s: %s => %s' % (n, hostile[n], str(per.get(n, 'accepted'))[:200]) for n in list(hostile)[::max(1, len(hostile) // 5)][:5]])))
    if accepted:
        c.extra['accepted hostile programs'] = sorted(accepted)[:100]
