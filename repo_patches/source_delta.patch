From c1226fc70e4e02b288c1a5bd10f5753448a7302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 01/21] fix: counts and sets of actions outside loops recurse
 outside loops only

---
 .../execution/trace/from_model/interaction.rs | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/core/execution/trace/from_model/interaction.rs b/src/core/execution/trace/from_model/interaction.rs
index 422114a..c1aefec 100644
--- a/src/core/execution/trace/from_model/interaction.rs
+++ b/src/core/execution/trace/from_model/interaction.rs
@@ -89,32 +89,32 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Par(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -122,8 +122,8 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return btreeset!{};
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -183,25 +183,25 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions().len();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Par(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Loop(_, i1) => {
                 return 0;
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             _ => {
                 panic!("non-conform interaction");
-- 
2.43.0


From cd5b6a60e0e5c8a8db512205451002bc8c79a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 02/21] fix: concurrent region lifelines are not pruned when
 affected lifelines are computed

---
 src/core/execution/semantics/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index ef4547e..f87b703 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -337,7 +337,7 @@ fn execute_interaction_right(my_int : &Interaction,
                 let got_i1;
                 let mut aff1;
                 if lfs_to_prune.len() > 0 {
-                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&tar_lf_ids);
+                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&lfs_to_prune);
                     got_i1 = Agot_i1;
                     aff1 = Aaff1;
                 } else {
-- 
2.43.0


From 3e1f50bc642459071f1aa83ef429a58d562ca997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 03/21] fix: pruning with affected lifelines handles
 synchronized products

---
 src/core/language/prune/interaction.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/core/language/prune/interaction.rs b/src/core/language/prune/interaction.rs
index 2eb7e7d..49519e8 100644
--- a/src/core/language/prune/interaction.rs
+++ b/src/core/language/prune/interaction.rs
@@ -201,6 +201,32 @@ impl LifelinePrunable for Interaction {
                     }
                 }
             },
+            Interaction::Sync(sync_acts, i1, i2) => {
+                let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
+                let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
+                aff1.extend(aff2);
+                // ***
+                let acts1 = pruned_i1.get_all_trace_actions();
+                let acts2 = pruned_i2.get_all_trace_actions();
+                // ***
+                let sync_acts_as_set : BTreeSet<TraceAction> = BTreeSet::from_iter(sync_acts.iter().cloned());
+                let intersetc1 = sync_acts_as_set.intersection(&acts1).count();
+                let intersetc2 = sync_acts_as_set.intersection(&acts2).count();
+                // ***
+                if intersetc1 == 0 && intersetc2 == 0 {
+                    if pruned_i1 == Interaction::Empty {
+                        return (pruned_i2,aff1);
+                    } else {
+                        if pruned_i2 == Interaction::Empty {
+                            return (pruned_i1,aff1);
+                        } else {
+                            return (Interaction::Par( Box::new(pruned_i1) , Box::new(pruned_i2) ),aff1);
+                        }
+                    }
+                } else {
+                    return (Interaction::Sync(sync_acts.clone(), Box::new(pruned_i1) , Box::new(pruned_i2)),aff1);
+                }
+            },
             Interaction::Strict(i1, i2) => {
                 let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
                 let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
-- 
2.43.0


From 2e3703ad9e97ccce6d0467f990e322b730e1ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 04/21] fix: synchronized operands are pruned on the lifelines
 of their own action only

---
 src/core/execution/semantics/execute.rs | 65 ++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index f87b703..38576e6 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -404,6 +404,66 @@ fn execute_interaction_right(my_int : &Interaction,
     }
 }
 
+/// the lifelines involved in the action which is at a given position
+fn get_target_lifelines(my_int : &Interaction, my_pos : &Position) -> BTreeSet<usize> {
+    match my_pos {
+        Position::Epsilon(sub_pos) => {
+            match (my_int,sub_pos) {
+                (Interaction::Reception(rc_act),Some(sub_pos_idx)) => {
+                    return btreeset!{rc_act.recipients[*sub_pos_idx]};
+                },
+                (Interaction::Emission(em_act),_) => {
+                    match em_act.synchronicity {
+                        CommunicationSynchronicity::Synchronous => {
+                            return em_act.involved_lifelines();
+                        },
+                        CommunicationSynchronicity::Asynchronous => {
+                            return btreeset!{em_act.origin_lf_id};
+                        }
+                    }
+                },
+                _ => {
+                    return my_int.involved_lifelines();
+                }
+            }
+        },
+        Position::Left(p1) => {
+            match my_int {
+                Interaction::Strict(i1,_) | Interaction::Seq(i1,_) | Interaction::CoReg(_,i1,_) | Interaction::Par(i1,_)
+                | Interaction::Alt(i1,_) | Interaction::Loop(_,i1) | Interaction::Sync(_,i1,_) => {
+                    return get_target_lifelines(i1,p1);
+                },
+                _ => {
+                    panic!();
+                }
+            }
+        },
+        Position::Right(p2) => {
+            match my_int {
+                Interaction::Strict(_,i2) | Interaction::Seq(_,i2) | Interaction::CoReg(_,_,i2) | Interaction::Par(_,i2)
+                | Interaction::Alt(_,i2) | Interaction::Sync(_,_,i2) => {
+                    return get_target_lifelines(i2,p2);
+                },
+                _ => {
+                    panic!();
+                }
+            }
+        },
+        Position::Both(p1,p2) => {
+            match my_int {
+                Interaction::Alt(i1,i2) | Interaction::Sync(_,i1,i2) => {
+                    let mut targets = get_target_lifelines(i1,p1);
+                    targets.extend( get_target_lifelines(i2,p2) );
+                    return targets;
+                },
+                _ => {
+                    panic!();
+                }
+            }
+        }
+    }
+}
+
 fn execute_interaction_both(my_int : &Interaction,
                             sub_p1 : &Position,
                             sub_p2 : &Position,
@@ -426,8 +486,9 @@ fn execute_interaction_both(my_int : &Interaction,
             }
         },
         Interaction::Sync(sync_acts, i1, i2) => {
-            let exres1 = execute_interaction(i1,sub_p1, tar_lf_ids,get_affected);
-            let exres2 = execute_interaction(i2,sub_p2, tar_lf_ids,get_affected);
+            // each operand is only constrained by the lifelines its own action involves
+            let exres1 = execute_interaction(i1,sub_p1, &get_target_lifelines(i1,sub_p1),get_affected);
+            let exres2 = execute_interaction(i2,sub_p2, &get_target_lifelines(i2,sub_p2),get_affected);
             // ***
             let acts1 = exres1.interaction.get_all_trace_actions();
             let acts2 = exres2.interaction.get_all_trace_actions();
-- 
2.43.0


From 4892f7bb6f73fa44f63e9f6421ebe7bba35f8e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 05/21] fix: nested loops are not merged when this changes the
 accepted traces

---
 src/core/language/eliminate_lf/interaction.rs  |  6 +++++-
 src/core/language/syntax/interaction.rs        | 18 ++++++++++++++++++
 .../transformation/transfofunc/loop_simpl.rs   |  4 +++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/core/language/eliminate_lf/interaction.rs b/src/core/language/eliminate_lf/interaction.rs
index c239f5b..e61338c 100644
--- a/src/core/language/eliminate_lf/interaction.rs
+++ b/src/core/language/eliminate_lf/interaction.rs
@@ -181,7 +181,11 @@ impl LifelineEliminable for Interaction {
                         return Interaction::Empty;
                     },
                     Interaction::Loop(opkind2,i11) => {
-                        return Interaction::Loop((opkind.min(opkind2)).clone(), i11.clone());
+                        if opkind.can_merge_with_nested(opkind2) {
+                            return Interaction::Loop((opkind.min(opkind2)).clone(), i11.clone());
+                        } else {
+                            return Interaction::Loop(opkind.clone(),Box::new(new_i1) );
+                        }
                     },
                     _ => {
                         return Interaction::Loop(opkind.clone(),Box::new(new_i1) );
diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index d17ade9..f47cdef 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -29,6 +29,24 @@ pub enum LoopKind {
     SStrictSeq     = 4
 }
 
+impl LoopKind {
+    /// whether a loop directly nested in another can be merged with it into a single loop of the most permissive of both kinds ;
+    /// this is not the case if the outer loop is head-first: the order between the heads
+    /// of the repetitions of the inner loop is constrained but that of their other actions is not
+    pub fn can_merge_with_nested(&self, nested : &LoopKind) -> bool {
+        match self {
+            LoopKind::HHeadFirstWS => {
+                match nested {
+                    LoopKind::PInterleaving => { true },
+                    LoopKind::WWeakSeq => { true },
+                    _ => { false }
+                }
+            },
+            _ => { true }
+        }
+    }
+}
+
 #[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
 pub enum Interaction {
     Empty,
diff --git a/src/core/transformation/transfofunc/loop_simpl.rs b/src/core/transformation/transfofunc/loop_simpl.rs
index 47c463e..cd37f07 100644
--- a/src/core/transformation/transfofunc/loop_simpl.rs
+++ b/src/core/transformation/transfofunc/loop_simpl.rs
@@ -39,7 +39,9 @@ pub fn transfo_loop_unnest(interaction : &Interaction) -> Vec<Interaction> {
         &Interaction::Loop(ref lkA, ref i1) => {
             match **i1 {
                 Interaction::Loop(ref lkB, ref i11) => {
-                    return vec![Interaction::Loop((lkA.min(lkB)).clone(), i11.clone())];
+                    if lkA.can_merge_with_nested(lkB) {
+                        return vec![Interaction::Loop((lkA.min(lkB)).clone(), i11.clone())];
+                    }
                 },
                 _ => {}
             }
-- 
2.43.0


From 5e679955f60b84d485b9386bec84a7354cf73d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:00 +0000
Subject: [PATCH 06/21] fix: synchronous communications are not unfolded into
 asynchronous ones

---
 src/core/transformation/transfofunc/action.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/transformation/transfofunc/action.rs b/src/core/transformation/transfofunc/action.rs
index 47090c2..0949e78 100644
--- a/src/core/transformation/transfofunc/action.rs
+++ b/src/core/transformation/transfofunc/action.rs
@@ -49,8 +49,8 @@ pub fn transfo_sort_action_content(interaction : &Interaction) -> Vec<Interactio
 pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
     match interaction {
         &Interaction::Emission(ref em_act) => {
-            if em_act.targets.len() == 0 {
-                // nothing to transform
+            if em_act.targets.len() == 0 || em_act.synchronicity == CommunicationSynchronicity::Synchronous {
+                // nothing to transform : a synchronous communication is a single atomic event
                 return vec![];
             } else {
                 let mut gates_targets = vec![];
@@ -89,6 +89,10 @@ pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
             }
         },
         &Interaction::Reception(ref rc_act) => {
+            if rc_act.synchronicity == CommunicationSynchronicity::Synchronous {
+                // nothing to transform : a synchronous communication is a single atomic event
+                return vec![];
+            }
             match rc_act.recipients.len() {
                 0 => {
                     panic!("malformed interaction : reception action with 0 recipients")
-- 
2.43.0


From ec6b98b73575a052ae010d6a93977d6930a86b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:11 +0000
Subject: [PATCH 07/21] fix: the reverse of an asynchronous emission starts
 with the receptions it causes

---
 src/core/language/syntax/interaction.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index f47cdef..7d0db82 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -18,7 +18,7 @@ limitations under the License.
 use std::collections::HashSet;
 use std::hash::Hash;
 use crate::core::execution::trace::trace::TraceAction;
-use crate::core::language::syntax::action::{EmissionAction, ReceptionAction};
+use crate::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
 
 
 #[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord, Hash)]
@@ -71,7 +71,26 @@ impl Interaction {
                 Interaction::Empty
             },
             Interaction::Emission(ref em_act) => {
-                Interaction::Emission(em_act.clone())
+                // the receptions caused by an asynchronous emission occur after it
+                let mut target_lfs : Vec<usize> = Vec::new();
+                let mut other_targets : Vec<EmissionTargetRef> = Vec::new();
+                for tar_ref in &em_act.targets {
+                    match tar_ref {
+                        EmissionTargetRef::Lifeline(tar_lf_id) => {
+                            target_lfs.push(*tar_lf_id);
+                        },
+                        EmissionTargetRef::Gate(tar_gt_id) => {
+                            other_targets.push(EmissionTargetRef::Gate(*tar_gt_id));
+                        }
+                    }
+                }
+                if em_act.synchronicity == CommunicationSynchronicity::Synchronous || target_lfs.len() == 0 {
+                    Interaction::Emission(em_act.clone())
+                } else {
+                    let receptions = ReceptionAction::new(None,em_act.ms_id,CommunicationSynchronicity::Asynchronous,target_lfs);
+                    let emission = EmissionAction::new(em_act.origin_lf_id,em_act.ms_id,CommunicationSynchronicity::Asynchronous,other_targets);
+                    Interaction::Strict(Box::new(Interaction::Reception(receptions)),Box::new(Interaction::Emission(emission)))
+                }
             },
             Interaction::Reception(ref rc_act) => {
                 Interaction::Reception(rc_act.clone())
-- 
2.43.0


From 0b2e80bbd5d7d18f40bd193c3c91a29a99a64f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:01 +0000
Subject: [PATCH 08/21] fix: memoization of analysis nodes compares what
 remains to be consumed on each canal

---
 src/process/ana/node/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index f29a02e..7c6d9d5 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -49,7 +49,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
             for idx in 0..self.flags.canals.len() {
                 let my_canal : &TraceAnalysisFlags  = self.flags.canals.get(idx).unwrap();
                 let other_canal : &TraceAnalysisFlags = memoized_node.flags.canals.get(idx).unwrap();
-                if my_canal.consumed > other_canal.consumed {
+                if my_canal.consumed != other_canal.consumed {
                     return false;
                 }
                 if my_canal.simulated_after < other_canal.simulated_after {
-- 
2.43.0


From 8c55f1e15732ffb1425d48683df77fd69ca3a624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 09/21] fix: an unknown gate is reported as an unknown gate,
 not as an unknown message

---
 src/core/general_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/general_context.rs b/src/core/general_context.rs
index d88f0ac..5723fc7 100644
--- a/src/core/general_context.rs
+++ b/src/core/general_context.rs
@@ -145,7 +145,7 @@ impl GeneralContext {
     pub fn get_gt_name(&self, gt_id : usize) -> Result<String,HibouCoreError> {
         match self.gt_names.get(gt_id) {
             None => {
-                return Err( HibouCoreError::UnknownMessage(gt_id) );
+                return Err( HibouCoreError::UnknownGate(gt_id) );
             },
             Some( gt_name ) => {
                 return Ok( gt_name.to_string() );
-- 
2.43.0


From 231a0409a0274ec6b603375ed8da6a14502878aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:17 +0000
Subject: [PATCH 10/21] fix: simulation limits do not overflow or underflow

---
 src/process/ana/node/flags.rs    | 4 ++--
 src/process/ana/param/anakind.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/process/ana/node/flags.rs b/src/process/ana/node/flags.rs
index fd0413b..f758377 100644
--- a/src/process/ana/node/flags.rs
+++ b/src/process/ana/node/flags.rs
@@ -240,14 +240,14 @@ impl MultiTraceAnalysisFlags {
         // ***
         let rem_loop_in_sim : u32;
         {
-            let removed = self.rem_loop_in_sim - loop_depth;
+            let removed = self.rem_loop_in_sim.saturating_sub(loop_depth);
             let reset = sim_config.get_reset_rem_loop(rem_multitrace_length,new_interaction);
             rem_loop_in_sim = reset.min(removed);
         }
         // ***
         let rem_act_in_sim : u32;
         {
-            let removed = self.rem_act_in_sim - 1;
+            let removed = self.rem_act_in_sim.saturating_sub(1);
             let reset = sim_config.get_reset_rem_act(rem_multitrace_length,new_interaction);
             rem_act_in_sim = reset.min(removed);
         }
diff --git a/src/process/ana/param/anakind.rs b/src/process/ana/param/anakind.rs
index fda2e0e..93b39fa 100644
--- a/src/process/ana/param/anakind.rs
+++ b/src/process/ana/param/anakind.rs
@@ -118,7 +118,7 @@ impl SimulationConfiguration {
             }
         }
         if self.multiply_by_multitrace_length {
-            return num * (multi_trace_len as u32);
+            return num.saturating_mul(multi_trace_len as u32);
         } else {
             return num;
         }
@@ -139,7 +139,7 @@ impl SimulationConfiguration {
             }
         }
         if self.multiply_by_multitrace_length {
-            return num * (multi_trace_len as u32);
+            return num.saturating_mul(multi_trace_len as u32);
         } else {
             return num;
         }
-- 
2.43.0


From 9957d3f819bc18c590f2430149f7560d714c64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:17 +0000
Subject: [PATCH 11/21] fix: every co-localization of a simulated communication
 is either matched or simulated

---
 src/process/ana/handling/matches.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 3a6fb43..255f80c 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -132,12 +132,10 @@ impl AnalysisParameterization {
                     if canal_flag.consumed == canal_trace.len() {
                         to_simulate.insert( tract_coloc_id, SimulationStepKind::AfterEnd);
                         gotit = true;
-                        break;
                     } else {
                         if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {
                             to_simulate.insert(tract_coloc_id,SimulationStepKind::BeforeStart);
                             gotit = true;
-                            break;
                         }
                     }
                     // *
-- 
2.43.0


From 3072b53ef8dc6fa2189c64a5b63884d01b122e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:17 +0000
Subject: [PATCH 12/21] fix: in simulations a canal only matches all that the
 action does on it

---
 src/process/ana/handling/matches.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 255f80c..25511d8 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -99,8 +99,15 @@ impl AnalysisParameterization {
                                 entirely_included_in_front_elt = false;
                             }
                         }
+                        // all that the frontier element does on this canal must have been observed
+                        let mut covers_front_elt_on_canal = true;
+                        for act in &frt_elt.target_actions {
+                            if context.co_localizations.get_lf_coloc_id(act.lf_id).unwrap() == canal_id && !got_multiact.contains(act) {
+                                covers_front_elt_on_canal = false;
+                            }
+                        }
                         // ***
-                        if intersect_with_front_elt && entirely_included_in_front_elt {
+                        if intersect_with_front_elt && entirely_included_in_front_elt && covers_front_elt_on_canal {
                             match_on_canal.push(canal_id );
                             ok_canals.insert(canal_id);
                             for got_act in got_multiact {
-- 
2.43.0


From 8348ec8b0ff34f613818e45d7ac458c433f73127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:44 +0000
Subject: [PATCH 13/21] fix: a lifeline whose name starts with o can begin an
 action in a .hif file

---
 src/io/input/hif/hif_syntax.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hif/hif_syntax.pest b/src/io/input/hif/hif_syntax.pest
index 7050ae4..468cd76 100644
--- a/src/io/input/hif/hif_syntax.pest
+++ b/src/io/input/hif/hif_syntax.pest
@@ -83,8 +83,8 @@ SD_LOOP = {"loop" ~ (SD_LOOP_KIND_S | SD_LOOP_KIND_H | SD_LOOP_KIND_W | SD_LOOP_
 SD_LOOP_INT = { SD_LOOP ~ "(" ~ SD_INTERACTION ~ ")" }
 
 
-SD_INTERACTION = { SD_EMPTY_INTERACTION
-		| SD_COMMUNICATION_ACTION
+SD_INTERACTION = { SD_COMMUNICATION_ACTION
+		| SD_EMPTY_INTERACTION
         | SD_STRICT_INT
         | SD_SEQ_INT
         | SD_COREG_INT
-- 
2.43.0


From 8418459ccf3df47fe4be0f2c86047b67caec409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:44 +0000
Subject: [PATCH 14/21] fix: the co-localization of a bare trace covers all the
 lifelines of the signature

---
 src/io/input/htf/implem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/htf/implem.rs b/src/io/input/htf/implem.rs
index e5fca20..ccdfc78 100644
--- a/src/io/input/htf/implem.rs
+++ b/src/io/input/htf/implem.rs
@@ -52,7 +52,7 @@ pub fn multitrace_from_text(gen_ctx : &GeneralContext,
                             return Err(e);
                         },
                         Ok( got_trace ) => {
-                            let co_localization = CoLocalizations::get_trivial_partition(lifelines.len());
+                            let co_localization = CoLocalizations::get_trivial_partition(gen_ctx.get_lf_num());
                             let multi_trace : MultiTrace = vec![got_trace];
                             return Ok( (co_localization,multi_trace) );
                         }
-- 
2.43.0


From e1bf49b937e6eb8a48b499e77a536909be4156c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:44 +0000
Subject: [PATCH 15/21] fix: a lifeline named by two canals of a multi-trace is
 an error

---
 src/io/input/htf/multi_trace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/htf/multi_trace.rs b/src/io/input/htf/multi_trace.rs
index c501d09..a1354a8 100644
--- a/src/io/input/htf/multi_trace.rs
+++ b/src/io/input/htf/multi_trace.rs
@@ -82,6 +82,9 @@ pub fn trace_canal_from_pair(gen_ctx : &GeneralContext,
                         return Err( HibouParsingError::MissingLifelineDeclarationError(lf_name));
                     },
                     Some( lf_id ) => {
+                        if unavailable_lifelines.contains(&lf_id) {
+                            return Err( HibouParsingError::NonDisjointTraceComponents );
+                        }
                         lifelines.insert(lf_id);
                     }
                 }
-- 
2.43.0


From 2f1d39f33f98c4545f22aa391ac901df3e178c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:44 +0000
Subject: [PATCH 16/21] fix: a co-localization without lifelines is written in
 a form that can be read back

---
 src/io/output/to_hfiles/trace/multi_trace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/output/to_hfiles/trace/multi_trace.rs b/src/io/output/to_hfiles/trace/multi_trace.rs
index 964e746..04d3709 100644
--- a/src/io/output/to_hfiles/trace/multi_trace.rs
+++ b/src/io/output/to_hfiles/trace/multi_trace.rs
@@ -37,7 +37,11 @@ pub fn multi_trace_as_htf_encoding(gen_ctx : &GeneralContext,
         for lf_id in coloc_lfs.iter().sorted() {
             lf_names.push( gen_ctx.get_lf_name(*lf_id).unwrap() );
         }
-        canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        if lf_names.is_empty() {
+            canal_string.push_str( "[#any] " );
+        } else {
+            canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        }
         // ***
         let mut trace_text_elements = vec![];
         for actions in canal_trace {
-- 
2.43.0


From ef3ad71841fb8d24998a0c44c7f4f0f7b32ea6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:06 +0000
Subject: [PATCH 17/21] fix: accept the parent_folder option of loggers in
 configuration files

---
 src/io/input/hcf/hcf_syntax.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index a3b57d1..faa4e3d 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -42,7 +42,7 @@ GRAPHIC_LOGGER_draw_term_tree = { "draw_tt" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_sub_processes = { "draw_sub_processes" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_legend = { "draw_legend" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 
-GRAPHIC_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+GRAPHIC_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 GRAPHIC_LOGGER_output_file = { ("output"|"name") ~ "=" ~ HIBOU_LABEL }
 
 GRAPHIC_LOGGER_opt = _{ GRAPHIC_LOGGER_format
@@ -71,7 +71,7 @@ TRACEGEN_LOGGER_partition_trivial = { "trivial" }
 TRACEGEN_LOGGER_partition_specific = { "{" ~ HIBOU_LABEL_LIST ~ ("," ~ HIBOU_LABEL_LIST)*  ~ "}" }
 TRACEGEN_LOGGER_partition = _{ "partition" ~ "=" ~ (TRACEGEN_LOGGER_partition_discrete | TRACEGEN_LOGGER_partition_trivial | TRACEGEN_LOGGER_partition_specific) }
 
-TRACEGEN_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+TRACEGEN_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_trace_prefix = { ("name_prefix"|"trace_prefix"|"prefix") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_no_duplicate = { ("avoid_duplicates"|"prevent_duplicates"|"no_duplicates") ~ "=" ~ (HIBOU_true|HIBOU_false) }
 
-- 
2.43.0


From 721ac1e3456db6c76b44d86703483844c657166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:06 +0000
Subject: [PATCH 18/21] fix: accept the modulo_each_X_steps option of local
 analyses

---
 src/io/input/hcf/hcf_syntax.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index faa4e3d..c3ee913 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -200,7 +200,7 @@ OPTION_GOAL_KIND = _{ OPTION_GOAL_pass | OPTION_GOAL_weakpass | HIBOU_none }
 OPTION_GOAL_DECL = { "goal" ~ "=" ~ OPTION_GOAL_KIND }
 // ***********************************************
 OPTION_LOCANA_depth = { ("max_look_ahead_depth" | "max"~"depth" | "lookahead" | "lookup") ~ "=" ~ (HIBOU_none | ARITH_INTEGER)}
-OPTION_LOCANA_modulo = { ("modulo" | "modulo_each_X_steps") ~ "=" ~ ARITH_INTEGER}
+OPTION_LOCANA_modulo = { ("modulo_each_X_steps" | "modulo") ~ "=" ~ ARITH_INTEGER}
 OPTION_LOCANA_select_all = { "all" | "All" | "ALL" }
 OPTION_LOCANA_select_dirty = { "dirty" | "Dirty" | "DIRTY" }
 OPTION_LOCANA_select = { "select" ~ "=" ~ (OPTION_LOCANA_select_all|OPTION_LOCANA_select_dirty) }
-- 
2.43.0


From dd69f9bc4206311633ddbdf084f6dfe88711ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:06 +0000
Subject: [PATCH 19/21] fix: accept the nfait logger in configuration files

---
 src/io/input/hcf/hcf_syntax.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index c3ee913..75b8f07 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -84,7 +84,7 @@ TRACEGEN_LOGGER_opt = _{ TRACEGEN_LOGGER_gen_kind
 TRACEGEN_LOGGER_opts = { "[" ~ TRACEGEN_LOGGER_opt ~ ("," ~ TRACEGEN_LOGGER_opt)* ~ (",")? ~ "]" }
 OPTION_TRACEGEN_LOGGER = { "tracegen" ~ TRACEGEN_LOGGER_opts? }
 
-OPTION_NFAIT_LOGGER = { "nfa" | "nfait" }
+OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 
 // ***
 
-- 
2.43.0


From 1369f88cb8e07c994532233a8540d214ed1253c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:06 +0000
Subject: [PATCH 20/21] fix: accept search_all = false in configuration files

---
 src/io/input/hcf/hcf_syntax.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index 75b8f07..386c2fe 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -227,7 +227,7 @@ ANALYZE_OPTION_SECTION =  { "@analyze_option" ~ "{" ~
 
 OPTION_CANON_searchall_yes = { "search_all" ~ ("=" ~ HIBOU_true)? }
 OPTION_CANON_searchall_no = { "search_all" ~ "=" ~ HIBOU_false }
-OPTION_CANON_searchall = _{ OPTION_CANON_searchall_yes | OPTION_CANON_searchall_no }
+OPTION_CANON_searchall = _{ OPTION_CANON_searchall_no | OPTION_CANON_searchall_yes }
 // ***
 CANONIZE_OPTION_DECL = _{ GENERAL_OPTION_DECL
                             | OPTION_CANON_searchall }
-- 
2.43.0


From f904269fadec9e227da9b4a1190c20e6ed5b520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:06 +0000
Subject: [PATCH 21/21] fix: comments after a number in a configuration file
 stopped the tool

---
 src/io/input/hcf/hcf_syntax.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index 386c2fe..04521d5 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -92,7 +92,7 @@ OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 OPTION_LOGGER_KIND = _{ OPTION_GRAPHIC_LOGGER | OPTION_TRACEGEN_LOGGER | OPTION_NFAIT_LOGGER }
 OPTION_LOGGER_DECL = { "loggers" ~ "=" ~ "[" ~ OPTION_LOGGER_KIND ~ ("," ~ OPTION_LOGGER_KIND)* ~ (",")? ~ "]" }
 // ***********************************************
-ARITH_INTEGER = { "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
+ARITH_INTEGER = @{ "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
 // ***********************************************
 OPTION_PRIORITY_emission = { "emission" }
 OPTION_PRIORITY_reception = { "reception" }
-- 
2.43.0

