//@ source src/catalog/collections.rs
//@ keep X Leaf
//@ cty ListIntro=List<$1>;ListElim=List<$1>;TreeIntro=Tree<$2>;TreeElim=Tree<$2>;Level=usize;MapIntro=List<($1,$2)>;MapElim=List<($1,$2)>
//@ view List ListV Nil/1 Cons/2 Name/2
//@ view Tree TreeV Nil/0 Leaf/1 Bin/3 Name/4
//@ derives List PartialEq Eq Clone
//@ derives Tree PartialEq Eq Clone
//@ derives NameElse PartialEq Eq Clone
//@ derives Dir2 PartialEq Eq Clone Copy
//@ include coll_types.inc
//@ enum Dir2
//@ enum List
//@ enum Tree
//@ enum NameElse
//@ end
impl Copy for Dir2 {}
impl Clone for Dir2 { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
pub enum ListV<X> { Nil(List<X>), Cons(X, List<X>), Name(Name, List<X>) }
pub enum TreeV<X> { Nil, Leaf(X), Bin(usize, Tree<X>, Tree<X>), Name(Name, usize, Tree<X>, Tree<X>) }
//@ include coll_list.inc
//@ include coll_tree.inc
//@ include coll_sort.inc
//@ include coll_map.inc
//@ end
} // mod fns
fn main() {}
} // verus!
