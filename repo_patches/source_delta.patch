From d587dcc5e78905c94ef60def2cf7909e18b13ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 01/22] fix: record the demand of a structural thunk that has
 effects

The purity test of force looked at the thunk's edges before evaluating it,
so the first demand of any structural thunk was treated as pure, and its
observer was never told about later changes.
---
 src/engine.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 6e4ce1f..7eb2ce2 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2068,6 +2068,16 @@ impl Adapton for DCG {
                     }
                 } ;
                 let st : &mut DCG = &mut *g.borrow_mut() ;
+                // A structural thunk is pure only if it ran to completion
+                // without recording any effects; before it has been evaluated
+                // (or while it is being evaluated) it trivially has no edges.
+                let is_pure : bool = is_pure && !is_cycle && {
+                    let node : &mut Node<T> = res_node_of_loc(st, &loc) ;
+                    match *node {
+                        Node::Comp(ref nd) => nd.succs.len() == 0,
+                        _ => true,
+                    }
+                } ;
                 if !is_dup && !is_pure { match st.stack.last_mut() { None => (), Some(frame) => {
                     let succ =
                         Succ{loc:loc.clone(),
-- 
2.43.0


From de03d841c8d9a8a4f42ee97be91096cc6a049a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 02/22] fix: a full demand is not a duplicate of an earlier
 partial one

After force_map or force_abs of a cell, forcing the same cell recorded no
edge, so changes that the partial observation ignores were missed.
---
 src/engine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7eb2ce2..269b516 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1964,8 +1964,10 @@ impl Adapton for DCG {
                     };
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
-                        for &(ref succ, ref _pred_dep) in frame.succs.iter() {
-                            if &succ.loc == loc && succ.effect == Effect::Observe
+                        for &(ref succ, ref pred_dep) in frame.succs.iter() {
+                            // A partial observation (`force_map`, `force_abs`)
+                            // does not cover this (full) observation.
+                            if &succ.loc == loc && succ.effect == Effect::Observe && pred_dep.is_none()
                             { is_dup = true }
                         };
                         is_dup
-- 
2.43.0


From 2e07375531767f7c4d00d49d6fb9a277896dcfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 03/22] fix: clean a shared dirty bit only after checking every
 edge that shares it

Two observations of one cell (e.g. two force_maps) share one dirty bit; it
was cleared after the first of them was found unchanged, hiding a change
seen by the second.
---
 src/engine.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 269b516..f837856 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -996,7 +996,7 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
      this_dep:&ForceDep<Res>,
      loc:&Rc<Loc>, cache:Res, succs:Vec<Succ>) -> DCGRes
 {
-    for succ in succs.iter() {
+    for (succ_idx, succ) in succs.iter().enumerate() {
         let dirty = {
             let st = &mut *g.borrow_mut();
             get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty
@@ -1016,7 +1016,16 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
             else {
                 let st : &mut DCG = &mut *g.borrow_mut();
                 //st.cnt.clean += 1 ;
-                get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty = false ;
+                // The dirty bit is shared by all edges with this effect and
+                // target (see `get_succ_mut`); it stays set until the last
+                // of them has been checked.
+                let mut is_last = true ;
+                for later in succs.iter().skip(succ_idx + 1) {
+                    if later.effect == succ.effect && later.loc == succ.loc { is_last = false }
+                }
+                if is_last {
+                    get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty = false ;
+                }
                 dcg_effect!(reflect::trace::Effect::CleanEdge, Some(loc), succ);
             }
             dcg_effect_end!();
-- 
2.43.0


From 6030226a9f1e5e3272390958aff9e6e9592af29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 04/22] fix: a cell named like an existing thunk replaces that
 thunk

The table kept the thunk, so forcing the new cell gave the old
computation's result instead of the cell's content.
---
 src/engine.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index f837856..85a4192 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1561,7 +1561,7 @@ impl Adapton for DCG {
                     let node : &Box<Node<T>> = res_node_of_loc(self, &loc) ;
                     match **node {
                         Node::Mut(_)       => { (false, true,  None, false, false) }
-                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()),  false, false ) }
+                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()),  true,  false ) }
                         Node::Pure(_)      => { (false, false, None, false, false) }
                     }} else                 { (false, false, None, true, true ) }
             ;
@@ -1605,9 +1605,18 @@ impl Adapton for DCG {
             dcg_effect_end!();
 
             if do_insert {
+                // When the cell takes the place of a thunk, it keeps the
+                // thunk's observers (and allocators).
+                let preds : Vec<Pred> = if is_fresh { Vec::new() } else {
+                    let node : &mut Node<T> = res_node_of_loc(self, &loc) ;
+                    match *node {
+                        Node::Comp(ref mut nd) => replace(&mut nd.preds, Vec::new()),
+                        _ => Vec::new(),
+                    }
+                } ;
                 let node = if is_pure { Node::Pure(PureNode{val:val.clone()}) } else {
                     Node::Mut(MutNode{
-                        preds:Vec::new(),
+                        preds:preds,
                         val:val.clone(),
                     })} ;
                 self.table.insert(loc.clone(), Box::new(node));
-- 
2.43.0


From 772d592226ccef918fb2988fdae0de9f6d28d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 05/22] fix: a thunk that replaces a cell keeps the cell's
 observers

The observers were dropped, so after their next (clean) demand they were
never told about changes to the thunk's result.
---
 src/engine.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 85a4192..fd95d75 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1183,8 +1183,10 @@ fn check_force_map_dep
                    (&Art{art:EnumArt::Loc(loc.clone())},
                     nd.val.clone())},
 
+        // The cell was replaced (by a thunk with its name) since this edge
+        // was recorded; it is always sound to report a change.
         Node::Comp(_) | Node::Pure(_) =>
-            unreachable!()
+            DCGRes{changed:true}
     }
 }
 
@@ -1737,7 +1739,7 @@ impl Adapton for DCG {
                         match ** res_nd {
                             Node::Pure(_)=> unreachable!(),
                             Node::Mut(_) => {
-                                (true, true, false) // Todo: Do we need to preserve preds?
+                                (true, true, false) // preds are preserved below
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
@@ -1811,8 +1813,17 @@ impl Adapton for DCG {
                     frame.succs.push((succ, None))
                 }};
                 if do_insert {
+                    // When the thunk takes the place of a cell, it keeps the
+                    // cell's observers (and allocators).
+                    let preds : Vec<Pred> = if is_fresh { Vec::new() } else {
+                        let node : &mut Node<Res> = res_node_of_loc(self, &loc) ;
+                        match *node {
+                            Node::Mut(ref mut nd) => replace(&mut nd.preds, Vec::new()),
+                            _ => Vec::new(),
+                        }
+                    } ;
                     let node : CompNode<Res> = CompNode{
-                        preds:Vec::new(),
+                        preds:preds,
                         succs:Vec::new(),
                         producer:Box::new(producer),
                         res:None,
-- 
2.43.0


From 3a0b87d216591f62e31dc31cd500049bb781292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 06/22] fix: dirty the observers of a cell that read it through
 force_abs

---
 src/engine.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index fd95d75..741304a 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1149,7 +1149,10 @@ impl<Arg:'static,   // identifies a concrete mapping in the family
         Some(TypeId::of::<Self>())
     }
     fn dirty (self:&Self, _g:&mut DCG, _loc:&Rc<Loc>) -> DCGRes {
-        unimplemented!()
+        // the old value of the cell is gone, so we cannot run the
+        // abstract test (`fn is_dirty` on the AbsMapFam trait) here;
+        // it is always sound to report a change.
+        DCGRes{ changed: true }
     }
     fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes {
         // the edge is dirty because we've already determined it
@@ -1319,7 +1322,7 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     for (pred_loc, dep) in pred_locs {
         let stop : bool = match dep {
             None => false,
-            Some(dep) => dep.is_absmap() != None || dep.dirty(st, loc).changed == false
+            Some(dep) => dep.dirty(st, loc).changed == false
         };
         let stop : bool = if stop { true } else {
             // The stop bit communicates information from st for use below.
-- 
2.43.0


From 83b068d4903277f60d43279f9b74e1549f229161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 07/22] fix: eager and naive thunks do not need a location in
 the DCG

---
 src/engine.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 741304a..b460788 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2477,11 +2477,25 @@ pub fn thunk<Arg:Hash+Eq+Debug+Clone+'static,Spurious:Clone+'static,Res:Hash+Eq+
 {
     GLOBALS.with(|g| {
         match g.borrow().engine {
-            Engine::DCG(ref dcg) => {
-                Art{art:EnumArt::Loc({
-                    if let AbsArt::Loc(loc) =
-                        (dcg.borrow_mut()).thunk(id, prog_pt, fn_box, arg, spurious)
-                    { loc } else { unreachable!() }})}
+            Engine::DCG(ref dcg) => match id {
+                // These cases have no representation in the DCG; the engine
+                // must not be borrowed (mutably) while the user's code runs.
+                NameChoice::Eager => {
+                    put(fn_box(arg, spurious))
+                },
+                NameChoice::Naive => {
+                    Art{art:EnumArt::Force(
+                        Rc::new(NaiveThunk{
+                            id:id,prog_pt:prog_pt,
+                            fn_box:fn_box,arg:arg,
+                            spurious:spurious} ))}
+                },
+                id => {
+                    Art{art:EnumArt::Loc({
+                        if let AbsArt::Loc(loc) =
+                            (dcg.borrow_mut()).thunk(id, prog_pt, fn_box, arg, spurious)
+                        { loc } else { unreachable!() }})}
+                },
             },
             Engine::Naive => {
                 Art{art:EnumArt::Force(
-- 
2.43.0


From af2f382681b194dddc9e2f289650dd7c00e7cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 08/22] fix: list_gen generates all of the requested elements

---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index d0eef85..4760e80 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -63,7 +63,7 @@ pub fn list_gen<X:'static,G,L:ListIntro<X>>
   (len:usize, gen_elm:G) -> L
   where G:Fn(usize) -> X {
     let mut out : L = L::nil();
-    for i in len-1..0 {
+    for i in (0..len).rev() {
       let x = gen_elm(i);
       let nm = name_of_usize(i);
       out = L::art(cell(nm.clone(), out));
-- 
2.43.0


From fb3e59648e9e9d587a9810f9b4743a3c82d9e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 09/22] fix: a thunk that replaces a cell dirties the cell's
 projections too

---
 src/engine.rs | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index b460788..180c6da 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1786,6 +1786,26 @@ impl Adapton for DCG {
                     }
                 } } ;
 
+                if do_insert {
+                    // When the thunk takes the place of a cell, it keeps the
+                    // cell's observers (and allocators).  This happens before
+                    // dirtying them: they check the new content of `loc`.
+                    let preds : Vec<Pred> = if is_fresh { Vec::new() } else {
+                        let node : &mut Node<Res> = res_node_of_loc(self, &loc) ;
+                        match *node {
+                            Node::Mut(ref mut nd) => replace(&mut nd.preds, Vec::new()),
+                            _ => Vec::new(),
+                        }
+                    } ;
+                    let node : CompNode<Res> = CompNode{
+                        preds:preds,
+                        succs:Vec::new(),
+                        producer:Box::new(producer),
+                        res:None,
+                    } ;
+                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
+                };
+
                 dcg_effect_begin!(
                     reflect::trace::Effect::Alloc(
                         if is_fresh { reflect::trace::AllocCase::LocFresh }
@@ -1815,30 +1835,8 @@ impl Adapton for DCG {
                              dirty:false};
                     frame.succs.push((succ, None))
                 }};
-                if do_insert {
-                    // When the thunk takes the place of a cell, it keeps the
-                    // cell's observers (and allocators).
-                    let preds : Vec<Pred> = if is_fresh { Vec::new() } else {
-                        let node : &mut Node<Res> = res_node_of_loc(self, &loc) ;
-                        match *node {
-                            Node::Mut(ref mut nd) => replace(&mut nd.preds, Vec::new()),
-                            _ => Vec::new(),
-                        }
-                    } ;
-                    let node : CompNode<Res> = CompNode{
-                        preds:preds,
-                        succs:Vec::new(),
-                        producer:Box::new(producer),
-                        res:None,
-                    } ;
-                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
-                else {
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
+                wf::check_dcg(self);
+                AbsArt::Loc(loc)
             }
         }
     }
-- 
2.43.0


From e01e831627be2b6013b774283abe4bbab759f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 10/22] fix: check the argument types before reusing or
 comparing thunks

---
 src/engine.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 180c6da..0c9bdd2 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -709,6 +709,8 @@ trait Producer<Res> : Debug {
     fn copy(self:&Self) -> Box<dyn Producer<Res>>;
     fn eq(self:&Self, other:&dyn Producer<Res>) -> bool;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
+    /// Identifies the implementing type, including its argument type(s).
+    fn app_typeid(self:&Self) -> TypeId;
 }
 // Consume a value of type Arg.
 trait Consumer<Arg> : Debug {
@@ -760,11 +762,13 @@ impl<Arg:'static+PartialEq+Eq+Clone+Debug,Spurious:'static+Clone,Res:'static+Deb
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt {
         & self.prog_pt
     }
+    fn app_typeid(self:&Self) -> TypeId {
+        TypeId::of::<Self>()
+    }
     fn eq (&self, other:&dyn Producer<Res>) -> bool {
-        if &self.prog_pt == other.prog_pt() {
+        if &self.prog_pt == other.prog_pt() && self.app_typeid() == other.app_typeid() {
             let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
+            // This is safe because the types are equal.
             let other : &Box<App<Arg,Spurious,Res>> = unsafe { transmute::<_,_>( other ) } ;
             self.arg == other.arg
         } else {
@@ -1745,11 +1749,12 @@ impl Adapton for DCG {
                                 (true, true, false) // preds are preserved below
                             },
                             Node::Comp(ref mut comp_nd) => {
+                                // The same code, for the same argument types
                                 let equal_producer_prog_pts : bool =
-                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() ) ;
+                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() )
+                                    && comp_nd.producer.app_typeid() == producer.app_typeid() ;
                                 if equal_producer_prog_pts { // => safe cast to Box<Consumer<Arg>>
                                     let app: &mut Box<App<Arg,Spurious,Res>> =
-                                    // TODO-Soon: Follow pattern above for assert_graphnode_res_type to dynamically check the safety of this cast
                                         unsafe { transmute::<_,_>( &mut comp_nd.producer ) }
                                     ;
                                     if app.get_arg() == arg {
@@ -2204,6 +2209,8 @@ trait Force<T> {
     fn id<'r>(self:&'r Self) -> &'r NameChoice;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
     fn hash_u64(self:&Self) -> u64;
+    /// Identifies the implementing type, including its argument type(s).
+    fn thunk_typeid(self:&Self) -> TypeId;
     fn fmt(&self, f:&mut Formatter) -> fmt::Result;
 }
 
@@ -2243,13 +2250,16 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
         self.arg.hash( &mut hasher );
         hasher.finish()
     }
+    fn thunk_typeid(&self) -> TypeId {
+        TypeId::of::<Self>()
+    }
     fn eq (&self, other:&dyn Force<T>) -> bool {
         if   &self.id      == other.id()
             && &self.prog_pt == other.prog_pt()
+            && self.thunk_typeid() == other.thunk_typeid()
         {
             let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
+            // This is safe because the types are equal.
             let other : &Box<NaiveThunk<A,S,T>> = unsafe { transmute::<_,_>( other ) } ;
             self.arg == other.arg
         } else {
-- 
2.43.0


From 27c17ff1dc44c199f150fb893510b6fdd340c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 11/22] fix: mapped thunks are equal only if they map the same
 thunk

---
 src/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 0c9bdd2..1f264fa 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2524,6 +2524,10 @@ pub fn thunk_map<Res1:Hash+Eq+Debug+Clone+'static,
                  Res2:Hash+Eq+Debug+Clone+'static>
     (thunk:Art<Res1>, map_fn:Rc<dyn Fn(Res1) -> Res2>) -> Art<Res2>
 {
+    // The new thunk equals another only if both map the same thunk (its hash
+    // identifies it) by the same function (the address identifies it; the new
+    // thunk keeps the function alive).
+    let arg = (my_hash(&thunk), Rc::as_ptr(&map_fn) as *const () as usize);
     Art{art:EnumArt::Force(
         Rc::new(NaiveThunk{
             id:NameChoice::Naive,
@@ -2533,7 +2537,7 @@ pub fn thunk_map<Res1:Hash+Eq+Debug+Clone+'static,
                 let res2 = map_fn(res1);
                 res2
             }))},
-            arg:(),
+            arg:arg,
             spurious:()
         }))
     }
-- 
2.43.0


From 2495dc90701725e63d7eba1c4b8120e51c362a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 12/22] fix: is_name tests for a name, not for an element

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 4760e80..71dad06 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -110,8 +110,8 @@ pub trait ListElim<X> : Debug+Clone+Hash+PartialEq+Eq {
   fn is_name (list:&Self) -> bool {
     Self::elim(list,
                |_|   false,
-               |_,_| true,
-               |_,_| false)
+               |_,_| false,
+               |_,_| true)
   }
 }
 
-- 
2.43.0


From a0972d3ae0dc4fe7773e07ea521444e7c29c5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 13/22] fix: prune_tree_of_tree names its cells apart from its
 memoized calls

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 71dad06..93d59f9 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -843,8 +843,8 @@ pub fn prune_tree_of_tree
     (tree,
      Rc::new(||          Ti::nil()),
      Rc::new(|x|         Ti::leaf(x)),
-     Rc::new(|lev,l,r|   bin_arts_niltest(None, lev, l, r)),
-     Rc::new(|n,lev,l,r| bin_arts_niltest(Some(n), lev, l, r))
+     Rc::new(|lev,l,r|   ns(name_unit(),|| bin_arts_niltest(None, lev, l, r))),
+     Rc::new(|n,lev,l,r| ns(name_unit(),|| bin_arts_niltest(Some(n), lev, l, r)))
      )
 }
 
-- 
2.43.0


From ca9f500a19057473369b0fbf0f00f8c27597c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 14/22] fix: mergesort_list_of_tree2 uses each name once

---
 src/catalog/collections.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 93d59f9..355efed 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -998,9 +998,11 @@ pub fn mergesort_list_of_tree2
   tree_fold_up_nm_dn
     (tree, nm,
      Rc::new(|_,|         L::nil()),
-     Rc::new(|m,x|        list_name_op(m, L::singleton(x))),
+     // Each name is passed both to the next leaf and to the merge: fork it, to use each half once.
+     Rc::new(|m:Option<Name>,x| list_name_op(m.map(|m| name_fork(m).0), L::singleton(x))),
      Rc::new(|_,    _, l, r| { list_merge_wrapper(None, l, None, r) }),
-     Rc::new(|_, n, _, l, r| { list_merge_wrapper(None, l, Some(n), r) }),
+     Rc::new(|_, n, _, l, r| { let (_, n) = name_fork(n);
+                               list_merge_wrapper(None, l, Some(n), r) }),
      )
 }
 
-- 
2.43.0


From 2037f01784cd5c69a87952157124214d2bab838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 15/22] fix: reflect references to structural locations

---
 src/parse_val.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 9b0b7a5..87366c8 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -278,6 +278,8 @@ fn name_of_val ( n:&Val ) -> Name {
             }        
         },
         Val::Name(ref n) => n.clone(),
+        // a structural identity is written as its hash
+        Val::Const( Const::Nat( ref h ) ) => name_of_hash64( *h as u64 ),
         _ => panic!("expected a constructor for a NameSym")
     }
 }
-- 
2.43.0


From 7700b74aa6644f5c4827334c2058853f35b8140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 16/22] fix: reflect names built from isize

---
 src/parse_val.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 87366c8..e8f4999 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -258,7 +258,11 @@ fn name_of_val ( n:&Val ) -> Name {
                 })
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("")
+                name_of_isize( match cons_args[0] {
+                    Val::Const( Const::Nat( ref n ) ) => *n as isize,
+                    Val::Const( Const::Num( ref n ) ) => n.clone(),
+                    _ => panic!("expected a Nat or a Num"),
+                })
             }
             else if *cons_name == name_of_str("Pair") {
                 let n1 = name_of_val( & cons_args[0] );
@@ -311,7 +315,12 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
                     }}
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("TODO")
+                if cons_args.len() < 1 { None } else {
+                    match cons_args[0] {          
+                        Val::Const( Const::Nat( ref n ) ) => Some( name_of_isize( *n as isize ) ),
+                        Val::Const( Const::Num( ref n ) ) => Some( name_of_isize( n.clone() ) ),
+                        _ => None,
+                    }}
             }
             else if *cons_name == name_of_str("Pair") {          
                 if cons_args.len() < 2 { None } else {
-- 
2.43.0


From 0b032edc8d134b744016b069e46600007d9d9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:23 +0000
Subject: [PATCH 17/22] fix: reflect strings with quotes, escapes and
 characters outside ASCII

---
 src/parse_val.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index e8f4999..c685251 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -64,6 +64,31 @@ pub fn parse_val <V:Debug> (v:&V) -> Val {
     parse_toks(toks)
 }
 
+/// Read the rest of an escape sequence (as `Debug` writes it, after
+/// the backslash), and append the character that it stands for.
+fn unescape (chars: &mut Vec<u8>, out: &mut Vec<u8>) {
+    match chars.pop() {
+        Some(b'n') => out.push(b'\n'),
+        Some(b'r') => out.push(b'\r'),
+        Some(b't') => out.push(b'\t'),
+        Some(b'0') => out.push(b'\0'),
+        Some(b'u') => {
+            let mut code : u32 = 0;
+            loop {
+                match chars.pop() {
+                    None | Some(b'}') => break,
+                    Some(b'{') => continue,
+                    Some(d) => code = code * 16 + (d as char).to_digit(16).unwrap(),
+                }
+            }
+            let c = ::std::char::from_u32(code).unwrap();
+            out.extend_from_slice(c.to_string().as_bytes())
+        }
+        Some(c) => out.push(c),
+        None => (),
+    }
+}
+
 /// Tokenize the characters of input into lexical tokens of type `Tok`
 fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
     let mut toks = vec![];
@@ -83,21 +108,16 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                 else if c == ']' { toks.push(Tok::Right(BalTok::Bracket)); continue }
                 else if c == ')' { toks.push(Tok::Right(BalTok::Paren));   continue }
                 else if c == '"' {
-                    let mut string_chars = vec![];
+                    let mut string_bytes = vec![];
                     loop {
                         match chars.pop() {
-                            None => break,
-                            Some(c) => {
-                                let c : char = c as char ;
-                                if c == '"' { break } else { 
-                                    string_chars.push(c);
-                                    continue 
-                                }
-                            }
+                            None | Some(b'"') => break,
+                            Some(b'\\') => unescape(&mut chars, &mut string_bytes),
+                            Some(c) => string_bytes.push(c),
                         }
                     };
                     toks.push(Tok::Const(Const::String( 
-                        string_chars.into_iter().collect() 
+                        String::from_utf8(string_bytes).unwrap()
                     )));
                     continue
                 }
-- 
2.43.0


From 3104825b673da20f83d8cffa97ad301515357c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 18/22] fix: trace the re-allocation of an equal pure cell as
 unchanged content

---
 src/engine.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine.rs b/src/engine.rs
index 1f264fa..e313741 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1374,6 +1374,7 @@ fn check_cell_change<T:'static+Eq+Debug> (st:&mut DCG, cell:AbsArt<T,Loc>, val:&
         let node = res_node_of_loc::<T>( st, loc ) ;
         match **node {
             Node::Mut(ref mut nd) => { &nd.val != val }
+            Node::Pure(ref nd) => { &nd.val != val }
             _ => { /* the location was previously _not_ a cell, so yes */ true }
         }
     }
-- 
2.43.0


From 454bfa907bf73c48aa372e1d05aeeba150369aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 19/22] fix: trace the allocation of structural thunks

---
 src/engine.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index e313741..cb8b73d 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1686,6 +1686,21 @@ impl Adapton for DCG {
                 let hash = my_hash (&(&prog_pt, &arg)) ;
                 let loc = loc_of_id(current_path(self),
                                     Rc::new(ArtId::Structural(hash)));
+                let is_fresh = !self.table.contains_key(&loc) ;
+                dcg_effect!(
+                    reflect::trace::Effect::Alloc(
+                        if is_fresh { reflect::trace::AllocCase::LocFresh }
+                        else { reflect::trace::AllocCase::LocExists(reflect::trace::ChangeFlag::ContentSame) },
+                        reflect::trace::AllocKind::Thunk
+                    ),
+                    current_loc!(self),
+                    reflect::Succ{
+                        loc:loc.reflect(),
+                        effect:reflect::Effect::Alloc,
+                        value:reflect::Val::ValTODO,
+                        dirty:false,
+                        is_dup:false, // XXX -- Actually: Not checked here.
+                    });
                 {   // If the node exists, return early.
                     let node = self.table.get_mut(&loc);
                     match node { None    => { },
-- 
2.43.0


From 1cf2abcb0a4998edc09ccbbda33ef25338b628c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:49 +0000
Subject: [PATCH 20/22] fix: keep the hash in names made from hashes, and in
 their reflection

---
 src/engine.rs    |  6 +++---
 src/parse_val.rs | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index cb8b73d..de52568 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -429,7 +429,7 @@ impl Clone for     DCG { fn clone(&self) -> Self { unimplemented!() } }
 #[derive(Hash,PartialEq,Eq,Clone,Debug)]
 enum NameSym {
     Unit,           // Unit value for name symbols
-    Hash64,        // Hashes (for structural names); hash stored in name struct
+    Hash64(u64),    // Hashes (for structural names)
     String(String), // Strings encode globally-unique symbols.
     Usize(usize),   // USizes encode globally-unique symbols.
     Isize(isize),   // USizes encode globally-unique symbols.
@@ -441,7 +441,7 @@ enum NameSym {
 fn write_namesym<W:Write>(w:&mut W, n:&NameSym) -> Result {
     match *n {
         NameSym::Unit => write!(w, "▲"),
-        NameSym::Hash64 => write!(w, "(Hash64)"),
+        NameSym::Hash64(_) => write!(w, "(Hash64)"),
         NameSym::String(ref s) => write!(w, "{}", s),
         NameSym::Usize(ref n) => write!(w, "{}", n),
         NameSym::Isize(ref n) => write!(w, "{}", n),
@@ -2331,7 +2331,7 @@ pub fn name_pair (n1:Name, n2:Name) -> Name {
 pub fn name_of_hash64(h:u64) -> Name {
     // TODO: Get rid of need for Rc here;
     // Rc should be optional in names?
-    Name{ hash:h, symbol:Rc::new(NameSym::Hash64) }
+    Name{ hash:h, symbol:Rc::new(NameSym::Hash64(h)) }
 }
 
 /// Create a name from a `usize`
diff --git a/src/parse_val.rs b/src/parse_val.rs
index c685251..e4a2786 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -263,7 +263,10 @@ fn name_of_val ( n:&Val ) -> Name {
                 name_unit()
             }
             else if *cons_name == name_of_str("Hash64") {
-                name_of_hash64( 0 ) // TODO/XXX
+                name_of_hash64( match cons_args[0] {
+                    Val::Const( Const::Nat( ref n ) ) => *n as u64,
+                    _ => panic!("expected a Nat"),
+                })
             }
             else if *cons_name == name_of_str("String") {
                 name_of_string( match cons_args[0] {
@@ -317,7 +320,11 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
                 Some(name_unit())
             }
             else if *cons_name == name_of_str("Hash64") {
-                Some(name_of_hash64( 0 )) // XXX \ TODO -- We are actually missing the hash here!
+                if cons_args.len() < 1 { None } else {
+                    match cons_args[0] {
+                        Val::Const( Const::Nat( ref n ) ) => Some( name_of_hash64( *n as u64 ) ),
+                        _ => None,
+                    }}
             }
             else if *cons_name == name_of_str("String") {
                 if cons_args.len() < 1 { None } else {
-- 
2.43.0


From 3fa2c0ba85924ba3761549752e3d1d616a3d8186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:10 +0000
Subject: [PATCH 21/22] fix: thunk![[name] body] tells bodies apart

The program point was the literal text "$fun" for every body, so that two
bodies under one name were taken for the same computation, and the second
silently got the result of the first (also through let_memo!).
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 8fda541..83c0d92 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -413,7 +413,7 @@ macro_rules! thunk {
   [ [ $name:ident ] $body:expr ] => {{
       thunk(
           NameChoice::Nominal(name_of_str(stringify!($name))),
-          prog_pt!(stringify!($fun)),
+          prog_pt!(stringify!($body)),
           Rc::new(Box::new( move |(),()| { $body } )),
           () ,
           () )
-- 
2.43.0


From 50df992b4b5e3b6ba06c66d45ce861c95f07176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:10 +0000
Subject: [PATCH 22/22] fix: a re-allocated thunk takes the spurious arguments
 and function of its new argument

Re-allocating a named thunk with another argument overwrote the argument
only: the thunk then ran on the new argument with the spurious arguments
(and the closure) that belonged to the old one.
---
 src/engine.rs | 3 +++
 src/macros.rs | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index de52568..a5a81fb 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1780,6 +1780,9 @@ impl Adapton for DCG {
                                     }
                                     else { // Case: Not the same argument:
                                         app.consume(arg.clone()); // overwrite the old argument
+                                        // The other parts of the thunk belong to its argument
+                                        app.fn_box = producer.fn_box.clone();
+                                        app.spurious = spurious.clone();
                                         comp_nd.res = None ; // clear the cache
                                         // do_dirty=true; do_insert=false
                                         (true, false, false)
diff --git a/src/macros.rs b/src/macros.rs
index 83c0d92..518a0a1 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -319,8 +319,8 @@ For instance, suppose that we want to pass `Fn`s around, which are not
 these traits.  For soundness, it is critical that the name and/or
 other arguments (before the `;;`) [functionally
 determine](https://en.wikipedia.org/wiki/Functional_dependency) the
-arguments that follow the `;;`, which are stored and never updated,
-nor tested for changes.
+arguments that follow the `;;`, which are never tested for changes,
+and updated only together with the arguments before the `;;`.
 
 ```
 # #[macro_use] extern crate adapton;
@@ -669,8 +669,8 @@ For instance, suppose that we want to pass `Fn`s around, which are not
 these traits.  For soundness, it is critical that the name and/or
 other arguments (before the `;;`) [functionally
 determine](https://en.wikipedia.org/wiki/Functional_dependency) the
-arguments that follow the `;;`, which are stored and never updated,
-nor tested for changes.
+arguments that follow the `;;`, which are never tested for changes,
+and updated only together with the arguments before the `;;`.
 
 ```
 # #[macro_use] extern crate adapton;
-- 
2.43.0

