From c9a79ead7255a526b0af0bbc3906e2280ea1e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:33 +0000
Subject: [PATCH 01/66] fix: spread the steps of a seq pattern over one cycle

Every step after the first was placed a whole cycle later than the pattern
length allows, so only the first step of a pattern was ever played.
---
 rs/parser/src/nodes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 44d94f8..b08d78b 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -517,6 +517,7 @@ impl<'ast> Node<'ast> for Seq<'ast> {
         // to do, more than a symbol
         // should be an event that contains time and note
         let compounds = paras.into_inner();
+        let compounds_n = compounds.len();
 
         let events = compounds
             .enumerate()
@@ -534,7 +535,7 @@ impl<'ast> Node<'ast> for Seq<'ast> {
                             .next()
                             .ok_or_else(|| e_span.to_err_with_positives(positives))?;
 
-                        let time = relative_time_sub + i as f32;
+                        let time = (relative_time_sub + i as f32) / compounds_n as f32;
 
                         match_or_return_err!(e,
                             Rule::integer => {
-- 
2.43.0


From 236dbbd42388499197200bd3be7311ff947f8e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:40 +0000
Subject: [PATCH 02/66] fix: connect each chain referenced by a kept seq only
 once

Repeated references shifted the input order of a seq node that survives an
update, so later references read the wrong chain.
---
 rs/parser/src/nodes.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index b08d78b..16d71b2 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -155,13 +155,15 @@ impl<'ast> Component<'ast> {
             })
             | Self::Get(Get { reference: r }) => vec![r],
 
-            Self::Seq(Seq { events }) => events
-                .iter()
-                .flat_map(|(_, e)| match e {
-                    UsizeOrRef::Usize(_) => None,
-                    UsizeOrRef::Ref(r) => Some(*r),
-                })
-                .collect(),
+            // each referenced chain is connected once, in order of first appearance
+            Self::Seq(Seq { events }) => events.iter().fold(vec![], |mut refs, (_, e)| {
+                if let UsizeOrRef::Ref(r) = e {
+                    if !refs.contains(r) {
+                        refs.push(*r);
+                    }
+                }
+                refs
+            }),
             Self::Arrange(Arrange { events }) => events
                 .iter()
                 .flat_map(|e| match e {
-- 
2.43.0


From 85cb86727ca1f21a34a01d8b24181b4dfcd7d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:59 +0000
Subject: [PATCH 03/66] fix: match repeated and moved nodes correctly when code
 is updated

An update looked components up by value only. Swapping two nodes of a chain
had no effect, repeating an existing node was ignored, and some edits with
repeated nodes panicked when inserting the new node.
---
 rs/main/src/lib.rs | 82 +++++++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 8562a3c..9d822bb 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -24,7 +24,7 @@ type YokedAst = Yoke<Ast<'static>, Box<str>>;
 
 #[derive(Default)]
 struct GraphDiff<'engine, const N: usize> {
-    node_remove_list: Vec<(&'engine str, usize)>,
+    node_keep_list: Vec<(&'engine str, Vec<usize>)>,
     node_update_list: Vec<(&'engine str, usize, Vec<GlicolPara<&'engine str>>)>,
     refpairlist: Vec<(Vec<String>, &'engine str, usize)>,
     node_add_list: VecDeque<(&'engine str, usize, GlicolNodeData<N>)>,
@@ -227,45 +227,42 @@ impl<const N: usize> Engine<N> {
                     continue;
                 };
 
-                // we gotta go through every node which exists in the old chain and check if it
-                // exists in the new one.
-                for (old_idx, old_comp) in old_chain.iter().enumerate() {
-                    match new_chain
-                        .iter()
-                        .enumerate()
-                        .find(|(_, comp)| old_comp == *comp)
-                    {
-                        // If it exists in the new chain, then we have to update it
-                        Some((idx, new_comp)) => {
-                            // the paras can be the same
-                            // but if the paras are refs, the source chain of refs can change
-                            // e.g. the main chain is o: constsig 42 >> mul ~a
-                            // the ref ~a: constsig 0.5 becomes ~a: constsig 0.5 >> mul 0.5
-                            // need to reconnect them with the ref source
-                            // note that when update, the reflist is cleared,
-                            // so we will need to rebuild all the ref connection anyway
-                            let reflist = new_comp.all_references();
-                            if !reflist.is_empty() {
-                                let owned_reflist =
-                                    reflist.into_iter().map(|s| s.to_owned()).collect();
-                                graph_diff
-                                    .refpairlist
-                                    .push((owned_reflist, chain_name, idx));
-                            }
-                        }
-                        // If it doesn't exist in the new chain,
-                        None => graph_diff.node_remove_list.push((chain_name, old_idx)),
+                // every component of the new chain takes over the first equal component of the old
+                // chain which has not been taken yet (components can repeat and change places)
+                let mut taken = vec![false; old_chain.len()];
+                let mut kept = vec![];
+                let mut added = vec![];
+                for (idx, new_comp) in new_chain.iter().enumerate() {
+                    let old_idx =
+                        (0..old_chain.len()).find(|&i| !taken[i] && old_chain[i] == *new_comp);
+                    let Some(old_idx) = old_idx else {
+                        added.push((idx, new_comp));
+                        continue;
+                    };
+                    taken[old_idx] = true;
+                    kept.push(old_idx);
+
+                    // the paras can be the same
+                    // but if the paras are refs, the source chain of refs can change
+                    // e.g. the main chain is o: constsig 42 >> mul ~a
+                    // the ref ~a: constsig 0.5 becomes ~a: constsig 0.5 >> mul 0.5
+                    // need to reconnect them with the ref source
+                    // note that when update, the reflist is cleared,
+                    // so we will need to rebuild all the ref connection anyway
+                    let reflist = new_comp.all_references();
+                    if !reflist.is_empty() {
+                        let owned_reflist = reflist.into_iter().map(|s| s.to_owned()).collect();
+                        graph_diff
+                            .refpairlist
+                            .push((owned_reflist, chain_name, idx));
                     }
                 }
+                graph_diff.node_keep_list.push((chain_name, kept));
 
-                // then look through the new chain and find everything which doesn't exist in the
-                // old one, and was thus inserted, and track it for insertion
+                // everything else in the new chain was inserted, track it for insertion
                 add_nodes(
                     chain_name,
-                    new_chain
-                        .iter()
-                        .enumerate()
-                        .filter(|(_, comp)| !old_chain.iter().any(|old_comp| old_comp == *comp)),
+                    added.into_iter(),
                     &mut graph_diff,
                     &self.samples_dict,
                     self.sr,
@@ -286,14 +283,17 @@ impl<const N: usize> Engine<N> {
                         .1
                 }));
 
-            // Then remove them all from self
-            while let Some((key, position_in_chain)) = graph_diff.node_remove_list.pop() {
+            // Then reduce every chain to the nodes it keeps, in their new order
+            while let Some((key, kept)) = graph_diff.node_keep_list.pop() {
                 if let Some(chain) = self.index_info.get_mut(key) {
                     // touch the index is fine, as we have a backup
-                    let node_index = chain[position_in_chain];
-
-                    graph_diff.idx_to_remove.push(node_index);
-                    chain.remove(position_in_chain);
+                    let kept_nodes: Vec<_> = kept.iter().map(|&i| chain[i]).collect();
+                    graph_diff.idx_to_remove.extend(
+                        chain
+                            .iter()
+                            .filter(|node_index| !kept_nodes.contains(node_index)),
+                    );
+                    *chain = kept_nodes;
                 }
             }
         } else {
-- 
2.43.0


From b6b0a854c74513e1b6af693c78d879bc4ece99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:30 +0000
Subject: [PATCH 04/66] fix: ignore control messages that address no existing
 node

A position beyond the end of the chain panicked, and a position that is not a
number was taken as zero and changed the first node or parameter.
---
 rs/main/src/lib.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 9d822bb..5da7a22 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -85,19 +85,20 @@ impl<const N: usize> Engine<N> {
                 continue; // todo: this should be an error
             };
 
-            let chain_pos = chain_pos.parse::<usize>().unwrap_or_default();
-            let param_pos = param_pos.parse::<u8>().unwrap_or_default();
-            if self.index_info.contains_key(chain_name) {
+            let (Ok(chain_pos), Ok(param_pos)) =
+                (chain_pos.parse::<usize>(), param_pos.parse::<u8>())
+            else {
+                continue;
+            };
+            let node_index = self
+                .index_info
+                .get(chain_name)
+                .and_then(|chain| chain.get(chain_pos));
+            if let Some(&node_index) = node_index {
+                let node = &mut self.context.graph[node_index].node;
                 match value.parse::<f32>() {
-                    // todo: check the name and pos
-                    Ok(v) => self.context.graph[self.index_info[chain_name][chain_pos]]
-                        .node
-                        .send_msg(Message::SetToNumber(param_pos, v)),
-                    Err(_) => {
-                        self.context.graph[self.index_info[chain_name][chain_pos]]
-                            .node
-                            .send_msg(Message::SetToSymbol(param_pos, value.to_string()));
-                    }
+                    Ok(v) => node.send_msg(Message::SetToNumber(param_pos, v)),
+                    Err(_) => node.send_msg(Message::SetToSymbol(param_pos, value.to_string())),
                 };
             }
         }
-- 
2.43.0


From 370ab25fba2a9fba97aae5575c9e154c036ba2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:34 +0000
Subject: [PATCH 05/66] fix: restore the audio input when the engine is reset

Reset dropped the built-in ~input chain: code using it was rejected afterwards
and passing input audio to next_block panicked.
---
 rs/main/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 5da7a22..c26ba6c 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -150,7 +150,11 @@ impl<const N: usize> Engine<N> {
         self.context.reset();
         self.ast = None;
         self.index_info.clear();
-        self.index_info_backup.clear();
+        self.index_info.insert(
+            "~input".to_string(),
+            vec![self.context.add_stereo_node(Pass {})],
+        );
+        self.index_info_backup.clone_from(&self.index_info);
         self.temp_node_index.clear();
         self.samples_dict.clear();
         self.bpm = 120.;
-- 
2.43.0


From 29c01e287dd714ed470c65fc9792621af5efcfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:47 +0000
Subject: [PATCH 06/66] fix: silence a kept node that loses its inputs in an
 update

After 'o: sig 1 >> mul 2' became 'o: mul 2' the kept node had nothing to
process and went on repeating its last block forever.
---
 rs/main/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index c26ba6c..1fdbf95 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -552,6 +552,20 @@ impl<const N: usize> Engine<N> {
             }
         }
 
+        // a kept node that has lost all its inputs must not repeat its last block forever
+        for (_, chain) in self.index_info.iter().filter(|(key, _)| *key != "~input") {
+            for index in chain {
+                let mut inputs = self
+                    .context
+                    .graph
+                    .neighbors_directed(*index, petgraph::Incoming);
+                if inputs.next().is_none() {
+                    let buffers = &mut self.context.graph[*index].buffers;
+                    buffers.iter_mut().for_each(|buffer| buffer.silence());
+                }
+            }
+        }
+
         // We can't reuse the allocation here as far as I can tell; see the comment at the top of
         // Self::parse
         self.ast = Some(new_ast);
-- 
2.43.0


From 58b57ae80dcf7cc116cde93d5801963c452c027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:52 +0000
Subject: [PATCH 07/66] fix: keep the impulse period at one sample or more

A frequency above the sample rate gave a period of zero and a division panic.
---
 rs/synth/src/node/signal/imp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/signal/imp.rs b/rs/synth/src/node/signal/imp.rs
index 1cbaa09..68c01c7 100644
--- a/rs/synth/src/node/signal/imp.rs
+++ b/rs/synth/src/node/signal/imp.rs
@@ -25,7 +25,7 @@ impl Impulse {
         }
     }
     pub fn freq(self, freq: f32) -> Self {
-        let period = (self.sr as f32 / freq) as usize;
+        let period = ((self.sr as f32 / freq) as usize).max(1);
         Self { period, ..self }
     }
     pub fn sr(self, sr: usize) -> Self {
@@ -50,7 +50,9 @@ impl<const N: usize> Node<N> for Impulse {
 
     fn send_msg(&mut self, info: Message) {
         match info {
-            Message::SetToNumber(0, value) => self.period = (self.sr as f32 / value) as usize,
+            Message::SetToNumber(0, value) => {
+                self.period = ((self.sr as f32 / value) as usize).max(1)
+            },
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             _ => {}
-- 
2.43.0


From 49534bc66d1045644b60abd08635106583ef1613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:17 +0000
Subject: [PATCH 08/66] fix: tell a speed node in front of seq from its
 referenced chains

A referenced chain whose block started with a pulse was taken for a speed
node, which shifted the other references and could panic. A chain referring to
itself panicked too, and the speed of a removed speed node stayed in force.
---
 rs/synth/src/node/sequencer/seq.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index a053f92..98386ad 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -42,6 +42,7 @@ impl<const N: usize> Node<N> for Sequencer {
         // println!("seq inputs info {:?} ; self.input_order {:?}", inputs, self.input_order);
         match inputs.len() {
             0 => {
+                self.speed = 1.0;
                 let bar_length = 240.0 / self.bpm as f64 * self.sr as f64 / self.speed as f64;
                 for out in &mut *output[0] {
                     *out = 0.0;
@@ -66,11 +67,15 @@ impl<const N: usize> Node<N> for Sequencer {
             }
             _ => {
                 // println!("{:?} {:?}", inputs, self.input_order);
-                let possible_speed = &inputs[&self.input_order[0]].buffers()[0];
-                let has_speed = possible_speed[0] > 0. && possible_speed[1] == 0.;
+                // the node in front of the seq, if any, comes before the referenced chains
+                let has_upstream = self.input_order.len() > self.ref_order.len();
 
-                if has_speed {
-                    self.speed = possible_speed[0];
+                self.speed = 1.0;
+                if has_upstream {
+                    let possible_speed = &inputs[&self.input_order[0]].buffers()[0];
+                    if possible_speed[0] > 0. && possible_speed[1] == 0. {
+                        self.speed = possible_speed[0];
+                    }
                 }
 
                 let bar_length = 240.0 / self.bpm as f64 * self.sr as f64 / self.speed as f64;
@@ -84,9 +89,11 @@ impl<const N: usize> Node<N> for Sequencer {
                             let midi = match &event.1 {
                                 UsizeOrRef::Usize(value) => *value as f32,
                                 UsizeOrRef::Ref(s) => {
-                                    let source = &inputs
-                                        [&self.input_order[self.ref_order[s] + has_speed as usize]]; //panic?
-                                    source.buffers()[0][idx]
+                                    // a chain that refers to itself gets no input
+                                    let order = self.ref_order[s] + has_upstream as usize;
+                                    inputs
+                                        .get(&self.input_order[order])
+                                        .map_or(0.0, |source| source.buffers()[0][idx])
                                 }
                             };
 
-- 
2.43.0


From 7d76078a7e8b23ebf620a7da18d27c9141360b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:20 +0000
Subject: [PATCH 09/66] fix: keep the seq cycle at one sample or more

Extreme tempo or speed values gave a cycle of zero samples and a division panic.
---
 rs/synth/src/node/sequencer/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index 98386ad..dac46fe 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -47,7 +47,7 @@ impl<const N: usize> Node<N> for Sequencer {
                 for out in &mut *output[0] {
                     *out = 0.0;
                     for event in &self.events {
-                        if (self.step % (bar_length as usize))
+                        if (self.step % (bar_length as usize).max(1))
                             == ((event.0 as f64 * bar_length) as usize)
                         {
                             let midi = match event.1 {
@@ -83,7 +83,7 @@ impl<const N: usize> Node<N> for Sequencer {
                     *out = 0.0;
 
                     for event in &self.events {
-                        if (self.step % (bar_length as usize))
+                        if (self.step % (bar_length as usize).max(1))
                             == ((event.0 as f64 * bar_length) as usize)
                         {
                             let midi = match &event.1 {
-- 
2.43.0


From 6cb190cff97ed8ec9ae545b315bb221980c8fdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:42 +0000
Subject: [PATCH 10/66] fix: play both channels of the sections of an arrange
 node

The right channel of an arrange node was always silent, and an arrange node
that refers to its own chain panicked.
---
 rs/synth/src/node/sequencer/arrange.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 5d47e28..4e5ec98 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -41,11 +41,28 @@ impl Arrange {
     }
 }
 
+// copies one frame of a section, a mono section goes to all the channels
+fn copy_frame<const N: usize>(
+    inputs: &HashMap<usize, Input<N>>,
+    input_order: &[usize],
+    section: usize,
+    output: &mut [Buffer<N>],
+    i: usize,
+) {
+    let source = input_order.get(section).and_then(|id| inputs.get(id));
+    for (channel, out) in output.iter_mut().enumerate() {
+        out[i] = source.map_or(0.0, |source| {
+            let buffers = source.buffers();
+            buffers.get(channel).unwrap_or(&buffers[0])[i]
+        });
+    }
+}
+
 impl<const N: usize> Node<N> for Arrange {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         let bar_length = 240.0 / self.bpm * self.sr as f32 / self.speed;
         // calculate which bar we are and which input to pass to theoutput
-        for (i, out) in output[0].iter_mut().enumerate() {
+        for i in 0..N {
             let pos = self.step as f32 / bar_length;
             let mut bar_count = 0.0;
             for j in 0..(self.events.len() / 2) {
@@ -55,8 +72,7 @@ impl<const N: usize> Node<N> for Arrange {
 
                 bar_count += bar;
                 if pos < bar_count {
-                    let source = &inputs[&self.input_order[j]];
-                    *out = source.buffers()[0][i];
+                    copy_frame(inputs, &self.input_order, j, output, i);
                     // match &self.events[j*2] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[j]];
@@ -67,8 +83,7 @@ impl<const N: usize> Node<N> for Arrange {
                     break;
                 } else if j == self.events.len() / 2 - 1 {
                     self.step = 0;
-                    let source = &inputs[&self.input_order[0]];
-                    *out = source.buffers()[0][i];
+                    copy_frame(inputs, &self.input_order, 0, output, i);
                     // match &self.events[0] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[0]];
-- 
2.43.0


From 31dbaccc97e878632466a833943085b0b58965c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:45 +0000
Subject: [PATCH 11/66] fix: let arrange follow tempo changes and length
 messages

A tempo change left a running arrange node at the old tempo, and a control
message that sets the length of a section panicked.
---
 rs/synth/src/node/sequencer/arrange.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 4e5ec98..b4cc9ec 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -98,14 +98,12 @@ impl<const N: usize> Node<N> for Arrange {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::SetToNumber(i, value) => {
-                self.step = 0;
-                let to_push = i as usize - self.events.len();
-
-                self.events.reserve(to_push + 1);
-                self.events
-                    .extend(std::iter::from_fn(|| Some(NumberOrRef::Number(0.0))).take(to_push));
-                self.events.push(NumberOrRef::Number(value));
+                if let Some(NumberOrRef::Number(bars)) = self.events.get_mut(i as usize) {
+                    self.step = 0;
+                    *bars = value;
+                }
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
-- 
2.43.0


From f65489e14b2c2a4e830e372e56d755e47b192e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:48 +0000
Subject: [PATCH 12/66] fix: create seq, choose, envperc and apfmsgain as the
 mono nodes they are

They only ever write their first channel, but were given two, so the right
channel of everything they feed stayed silent.
---
 rs/main/src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index f1658a4..4505e02 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -222,7 +222,7 @@ pub fn makenode<const N: usize>(
                     nodes::NumberOrRef::Ref(_) => 0.0,
                 })
                 .gain(*gain)
-                .to_boxed_nodedata(2);
+                .to_boxed_nodedata(1);
 
             let mut reflist = vec![];
             if let nodes::NumberOrRef::Ref(s) = delay {
@@ -240,7 +240,7 @@ pub fn makenode<const N: usize>(
                 .sr(sr)
                 .attack(*attack)
                 .decay(*decay)
-                .to_boxed_nodedata(2),
+                .to_boxed_nodedata(1),
             vec![],
         ),
         Component::Adsr(nodes::Adsr {
@@ -373,12 +373,12 @@ pub fn makenode<const N: usize>(
                     .sr(sr)
                     .bpm(bpm)
                     .ref_order(order)
-                    .to_boxed_nodedata(2),
+                    .to_boxed_nodedata(1),
                 reflist,
             )
         }
         Component::Choose(nodes::Choose { choices }) => (
-            Choose::new(choices.clone(), seed as u64).to_boxed_nodedata(2),
+            Choose::new(choices.clone(), seed as u64).to_boxed_nodedata(1),
             vec![],
         ),
         Component::Mix(nodes::Mix { nodes }) => (
-- 
2.43.0


From ded6a102ed3d7a39adebcdcf83aac9413923f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:21 +0000
Subject: [PATCH 13/66] fix: delay both channels of a stereo signal in delayn

The right channel of a stereo input was dropped.
---
 rs/synth/src/node/delay/delayn.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index f483daa..245b5e7 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -5,7 +5,7 @@ type Fixed = ring_buffer::Fixed<Vec<f32>>;
 
 #[derive(Debug, Clone)]
 pub struct DelayN {
-    buf: Fixed,
+    buf: Vec<Fixed>, // one per channel
     delay_n: usize,
     input_order: Vec<usize>,
 }
@@ -17,7 +17,7 @@ impl DelayN {
             0 => 1,
             _ => n,
         };
-        let buf = ring_buffer::Fixed::from(vec![0.0; init_n]);
+        let buf = vec![Fixed::from(vec![0.0; init_n]); 2];
         Self {
             buf,
             delay_n,
@@ -31,10 +31,12 @@ impl<const N: usize> Node<N> for DelayN {
         if inputs.len() == 1 {
             let main_input = inputs.values_mut().next().unwrap();
             if self.delay_n != 0 {
-                for i in 0..N {
-                    output[0][i] = self.buf.push(main_input.buffers()[0][i]);
-                    if main_input.buffers().len() == 1 && output.len() == 2 {
-                        output[1][i] = output[0][i];
+                let in_bufs = main_input.buffers();
+                let channels = output.iter_mut().zip(self.buf.iter_mut()).enumerate();
+                for (channel, (out_buf, buf)) in channels {
+                    let in_buf = in_bufs.get(channel).unwrap_or(&in_bufs[0]);
+                    for (out, sample) in out_buf.iter_mut().zip(in_buf.iter()) {
+                        *out = buf.push(*sample);
                     }
                 }
             } else {
@@ -62,7 +64,7 @@ impl<const N: usize> Node<N> for DelayN {
         match info {
             Message::SetToNumber(0, value) => {
                 self.delay_n = value as usize;
-                self.buf = Fixed::from(vec![0.0; self.delay_n]);
+                self.buf = vec![Fixed::from(vec![0.0; self.delay_n]); 2];
                 // buf2 = Fixed::from(vec![0.0; delay_n]);
                 // self.buf.set_first(self.delay_n);
                 // self.buf2.set_first(delay_n);
-- 
2.43.0


From 78e42ed03bd4ecb4f57383410b79ed2a462bc0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:25 +0000
Subject: [PATCH 14/66] fix: accept a control message that sets delayn to zero

It panicked on building an empty ring buffer.
---
 rs/synth/src/node/delay/delayn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index 245b5e7..bbd8a39 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -64,7 +64,7 @@ impl<const N: usize> Node<N> for DelayN {
         match info {
             Message::SetToNumber(0, value) => {
                 self.delay_n = value as usize;
-                self.buf = vec![Fixed::from(vec![0.0; self.delay_n]); 2];
+                self.buf = vec![Fixed::from(vec![0.0; self.delay_n.max(1)]); 2];
                 // buf2 = Fixed::from(vec![0.0; delay_n]);
                 // self.buf.set_first(self.delay_n);
                 // self.buf2.set_first(delay_n);
-- 
2.43.0


From 5a1e81f63dfacb8f2cca9cb42c3759456d69f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:29 +0000
Subject: [PATCH 15/66] fix: delay a mono signal on both channels in delayms

The right channel stayed silent, and a delayms node without input panicked.
---
 rs/synth/src/node/delay/delayms.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index ed1ea93..68d4c79 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -44,7 +44,9 @@ impl DelayMs {
 
 impl<const N: usize> Node<N> for DelayMs {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
-        let main_input = inputs.values().next().unwrap();
+        let Some(main_input) = inputs.values().next() else {
+            return;
+        };
         if !(1..=2).contains(&main_input.buffers().len()) {
             return;
         }
@@ -56,13 +58,12 @@ impl<const N: usize> Node<N> for DelayMs {
                     // equal to a pass node
                     0 => output[0].copy_from_slice(&main_input.buffers()[0]),
                     _ => {
-                        let iter = self
-                            .buf
-                            .iter_mut()
-                            .zip(output.iter_mut())
-                            .zip(main_input.buffers());
+                        let main_bufs = main_input.buffers();
+                        let iter = self.buf.iter_mut().zip(output.iter_mut()).enumerate();
 
-                        for ((fixed, out_buf), main_buf) in iter {
+                        for (channel, (fixed, out_buf)) in iter {
+                            // a mono input is delayed on all the channels
+                            let main_buf = main_bufs.get(channel).unwrap_or(&main_bufs[0]);
                             for (out, main) in out_buf.iter_mut().zip(main_buf.iter()) {
                                 *out = fixed.push(*main);
                             }
@@ -83,13 +84,11 @@ impl<const N: usize> Node<N> for DelayMs {
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-                    let iter = self
-                        .buf
-                        .iter_mut()
-                        .zip(output.iter_mut())
-                        .zip(main_input.buffers());
+                    let main_bufs = main_input.buffers();
+                    let iter = self.buf.iter_mut().zip(output.iter_mut()).enumerate();
 
-                    for ((fixed, out_buf), main_buf) in iter {
+                    for (channel, (fixed, out_buf)) in iter {
+                        let main_buf = main_bufs.get(channel).unwrap_or(&main_bufs[0]);
                         out_buf[i] = fixed.get(pos_int) * pos_frac
                             + fixed.get(pos_int + 1) * (1. - pos_frac);
                         fixed.push(main_buf[i]);
-- 
2.43.0


From 8f75879bbd96e12169944340e80338d9200bde5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:32 +0000
Subject: [PATCH 16/66] fix: interpolate a modulated delayms at the requested
 delay

The two interpolation weights were swapped, a delay of zero became the longest
one, and a huge delay never left the wrap-around loop.
---
 rs/synth/src/node/delay/delayms.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 68d4c79..727ebcc 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -77,10 +77,9 @@ impl<const N: usize> Node<N> for DelayMs {
 
                 let mod_buf = &mut ref_input.buffers();
                 for i in 0..N {
-                    let mut pos = -mod_buf[0][i] / 1000. * self.sr as f32;
-                    while pos < 0. {
-                        pos += self.buf[0].len() as f32;
-                    }
+                    // the newest sample in the buffer, the one pushed below, has a delay of 0
+                    let newest = (self.buf[0].len() - 1) as f32;
+                    let pos = newest - (mod_buf[0][i] / 1000. * self.sr as f32).clamp(0., newest);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
@@ -89,9 +88,9 @@ impl<const N: usize> Node<N> for DelayMs {
 
                     for (channel, (fixed, out_buf)) in iter {
                         let main_buf = main_bufs.get(channel).unwrap_or(&main_bufs[0]);
-                        out_buf[i] = fixed.get(pos_int) * pos_frac
-                            + fixed.get(pos_int + 1) * (1. - pos_frac);
                         fixed.push(main_buf[i]);
+                        out_buf[i] = fixed.get(pos_int) * (1. - pos_frac)
+                            + fixed.get(pos_int + 1) * pos_frac;
                     }
                 }
 
-- 
2.43.0


From 1c90a1101b3a694d1eb0180a6f361f7566ba5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:36 +0000
Subject: [PATCH 17/66] fix: keep delayms working after a message sets it below
 one sample

The buffers were dropped for good, so the node stayed silent whatever was set
later. It now uses the same minimum of one sample as in code.
---
 rs/synth/src/node/delay/delayms.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 727ebcc..5d2538d 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -105,15 +105,11 @@ impl<const N: usize> Node<N> for DelayMs {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(0, value) => {
-                let delay_n = (value / 1000. * self.sr as f32) as usize;
+                let delay_n = ((value / 1000. * self.sr as f32) as usize).max(1);
                 self.delay_n = delay_n;
 
-                if delay_n == 0 {
-                    self.buf.clear();
-                } else {
-                    let chan = self.buf.len();
-                    self.buf = vec![Fixed::from(vec![0.0; delay_n]); chan];
-                };
+                let chan = self.buf.len();
+                self.buf = vec![Fixed::from(vec![0.0; delay_n]); chan];
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
-- 
2.43.0


From 6c254e70ea60f3805c79b9fdc7b1dd69f35ea7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:39 +0000
Subject: [PATCH 18/66] fix: honour the delay of apfmsgain when set to less
 than a sample or by message

Less than one sample panicked on an empty ring buffer, and a control message
moved the read position without changing the delay.
---
 rs/synth/src/node/filter/apfmsgain.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 0443b2f..3c8c22f 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -32,7 +32,7 @@ impl AllPassFilterGain {
         let size = if delay == 0.0 {
             3. * self.sr as f32
         } else {
-            delay / 1000. * self.sr as f32
+            (delay / 1000. * self.sr as f32).max(1.)
         } as usize;
         Self {
             bufx: ring_buffer::Fixed::from(vec![0.0; size]),
@@ -102,9 +102,9 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
         match info {
             Message::SetToNumber(pos, value) => match pos {
                 0 => {
-                    let delay_n = (value / 1000. * self.sr as f32) as usize;
-                    self.bufx.set_first(delay_n);
-                    self.bufy.set_first(delay_n);
+                    let delay_n = ((value / 1000. * self.sr as f32) as usize).max(1);
+                    self.bufx = Fixed::from(vec![0.0; delay_n]);
+                    self.bufy = Fixed::from(vec![0.0; delay_n]);
                 }
                 1 => self.gain = value,
                 _ => {}
-- 
2.43.0


From a825f5a89aaa6fda4db99f9c1c724fc39aa10b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:43 +0000
Subject: [PATCH 19/66] fix: interpolate a modulated apfmsgain at the requested
 delay

The two interpolation weights were swapped, and a huge delay never left the
wrap-around loop.
---
 rs/synth/src/node/filter/apfmsgain.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 3c8c22f..e23548b 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -75,17 +75,15 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    let mut pos = -mod_buf / 1000. * self.sr as f32;
-                    while pos < 0. {
-                        pos += self.bufx.len() as f32;
-                    }
+                    let longest = self.bufx.len() as f32;
+                    let pos = longest - (mod_buf / 1000. * self.sr as f32).clamp(1., longest);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-                    let xdelay = self.bufx.get(pos_int) * pos_frac
-                        + self.bufx.get(pos_int + 1) * (1. - pos_frac);
-                    let ydelay = self.bufy.get(pos_int) * pos_frac
-                        + self.bufy.get(pos_int + 1) * (1. - pos_frac);
+                    let xdelay = self.bufx.get(pos_int) * (1. - pos_frac)
+                        + self.bufx.get(pos_int + 1) * pos_frac;
+                    let ydelay = self.bufy.get(pos_int) * (1. - pos_frac)
+                        + self.bufy.get(pos_int + 1) * pos_frac;
 
                     let yn = -self.gain * xn + xdelay + self.gain * ydelay;
 
-- 
2.43.0


From d96ba6a49616151133eb50593ca925912e4a7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:10 +0000
Subject: [PATCH 20/66] fix: run pan and plate nodes that have no input

A chain starting with one of them panicked on the first block.
---
 rs/synth/src/node/effect/pan.rs   | 2 +-
 rs/synth/src/node/effect/plate.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/effect/pan.rs b/rs/synth/src/node/effect/pan.rs
index 8bc11df..4a9573f 100644
--- a/rs/synth/src/node/effect/pan.rs
+++ b/rs/synth/src/node/effect/pan.rs
@@ -36,7 +36,7 @@ impl<const N: usize> Node<N> for Pan {
                 *left = left_gain * sample; // Left channel
                 *right = right_gain * sample; // Right channel
             }
-        } else {
+        } else if inputs.len() == 2 {
             let ref_input = &inputs[&self.input_order[1]]; // can panic if there is no id
             let main_input = &inputs[&self.input_order[0]]; // can panic if there is no id
 
diff --git a/rs/synth/src/node/effect/plate.rs b/rs/synth/src/node/effect/plate.rs
index d63cab1..b972b76 100644
--- a/rs/synth/src/node/effect/plate.rs
+++ b/rs/synth/src/node/effect/plate.rs
@@ -158,6 +158,9 @@ impl<const N: usize> Plate<N> {
 
 impl<const N: usize> Node<N> for Plate<N> {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
+        if inputs.len() != 1 {
+            return;
+        }
         let main_input = inputs[&self.input_order[0]].buffers();
         self.context.graph[self.input].buffers[0] = main_input[0].clone();
         // self.context.graph[self.input].buffers[1] = main_input[1].clone();
-- 
2.43.0


From 19d44e4287eadcb795786150bd13bc65aaa58209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:14 +0000
Subject: [PATCH 21/66] fix: limit the pan position given in code or by a
 signal

Anything outside -1 to 1 gave the square root of a negative number, so the
output became NaN. Control messages were limited already.
---
 rs/synth/src/node/effect/pan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/effect/pan.rs b/rs/synth/src/node/effect/pan.rs
index 4a9573f..586f441 100644
--- a/rs/synth/src/node/effect/pan.rs
+++ b/rs/synth/src/node/effect/pan.rs
@@ -10,7 +10,7 @@ pub struct Pan {
 impl Pan {
     pub fn new(pan_pos: f32) -> Self {
         Self {
-            pan_pos,
+            pan_pos: pan_pos.clamp(-1.0, 1.0),
             input_order: vec![],
         }
     }
@@ -47,7 +47,7 @@ impl<const N: usize> Node<N> for Pan {
             let outs = left[0].iter_mut().zip(right[0].iter_mut());
 
             for ((left, right), (mod_pan, main)) in outs.zip(ref_main) {
-                let pan_norm = (mod_pan + 1.0) / 2.0;
+                let pan_norm = (mod_pan.clamp(-1.0, 1.0) + 1.0) / 2.0;
                 let left_gain = (1.0 - pan_norm).sqrt(); // Left channel gain
                 let right_gain = pan_norm.sqrt(); // Right channel gain
                 *left = left_gain * main; // Left channel
-- 
2.43.0


From 089cd281628aaa8a6848c9e613eec82d8fa485d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:17 +0000
Subject: [PATCH 22/66] fix: start the attack of a retriggered adsr from its
 current level

The rise was scaled for the level at the trigger but started from zero, so the
envelope jumped down at the trigger and up again at the end of the attack.
---
 rs/synth/src/node/envelope/adsr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/envelope/adsr.rs b/rs/synth/src/node/envelope/adsr.rs
index 57120fc..b96f06e 100644
--- a/rs/synth/src/node/envelope/adsr.rs
+++ b/rs/synth/src/node/envelope/adsr.rs
@@ -96,7 +96,8 @@ impl<const N: usize> Node<N> for Adsr {
                             } else {
                                 // attack from: lasty -> 1.0
                                 *out = self.pos as f32 / attack_len as f32
-                                    * (1.0 - self.state_change_y);
+                                    * (1.0 - self.state_change_y)
+                                    + self.state_change_y;
                             }
                         } else if self.pos > attack_len && self.pos <= attack_len + decay_len {
                             // decay phase
-- 
2.43.0


From 4e954ae983860d8bc4b54989f5fe669292412200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:21 +0000
Subject: [PATCH 23/66] fix: filter the main input of a modulated onepole

The signal and its modulator were swapped.
---
 rs/synth/src/node/filter/onepole.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/filter/onepole.rs b/rs/synth/src/node/filter/onepole.rs
index 3209f70..2759021 100644
--- a/rs/synth/src/node/filter/onepole.rs
+++ b/rs/synth/src/node/filter/onepole.rs
@@ -48,9 +48,9 @@ impl<const N: usize> Node<N> for OnePole {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    self.b = (-2.0 * std::f32::consts::PI * main_in).exp();
+                    self.b = (-2.0 * std::f32::consts::PI * ref_in).exp();
                     self.a = 1. - self.b;
-                    let y = ref_in * self.a + self.b * self.y1;
+                    let y = main_in * self.a + self.b * self.y1;
                     *out = y;
                     self.y1 = y;
                 }
-- 
2.43.0


From c2e14fd99992304f64b439e146117c0cb6e486d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:24 +0000
Subject: [PATCH 24/66] fix: give the high-pass filter the sample rate of the
 engine

Its cutoff was computed for 44100 Hz whatever the sample rate.
---
 rs/main/src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 4505e02..bbe2ae3 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -206,6 +206,7 @@ pub fn makenode<const N: usize>(
                     nodes::NumberOrRef::Ref(_) => 100.0,
                 })
                 .q(*qvalue)
+                .sr(sr)
                 .to_boxed_nodedata(1);
 
             let mut reflist = vec![];
-- 
2.43.0


From 2e46c1584e0e47fd8519e8ddee7f77fb67d78b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:28 +0000
Subject: [PATCH 25/66] fix: feed the current sample into the low-pass and
 high-pass filters

The first coefficient was multiplied with a field that is never set, so the
low-pass lost a quarter of its gain and the high-pass let DC through.
---
 rs/synth/src/node/filter/rhpf.rs | 6 ++----
 rs/synth/src/node/filter/rlpf.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/filter/rhpf.rs b/rs/synth/src/node/filter/rhpf.rs
index ec56e9d..1a57787 100644
--- a/rs/synth/src/node/filter/rhpf.rs
+++ b/rs/synth/src/node/filter/rhpf.rs
@@ -4,7 +4,6 @@ use hashbrown::HashMap;
 pub struct ResonantHighPassFilter {
     cutoff: f32,
     q: f32,
-    x0: f32,
     x1: f32,
     x2: f32,
     y1: f32,
@@ -24,7 +23,6 @@ impl ResonantHighPassFilter {
         Self {
             cutoff: 20.,
             q: 1.0,
-            x0: 0.,
             x1: 0.,
             x2: 0.,
             y1: 0.,
@@ -63,7 +61,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
                 let b2 = 2.0 * beta;
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
                     self.x2 = self.x1;
                     self.x1 = *x0;
@@ -88,7 +86,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
                     self.x2 = self.x1;
                     self.x1 = *x0;
diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 8893e8c..4131422 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -9,7 +9,6 @@ pub struct ResonantLowPassFilter {
     sr: usize,
     cutoff: f32,
     q: f32,
-    x0: f32,
     x1: f32,
     x2: f32,
     y1: f32,
@@ -35,7 +34,6 @@ impl ResonantLowPassFilter {
             step: 0,
             cutoff: 20.,
             q: 1.0,
-            x0: 0.,
             x1: 0.,
             x2: 0.,
             y1: 0.,
@@ -108,7 +106,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                     let b2 = 2.0 * beta;
 
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
 
                     *out = y;
                     self.x2 = self.x1;
@@ -134,7 +132,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
                     self.x2 = self.x1;
                     self.x1 = *x0;
-- 
2.43.0


From e7831ae118af9309b0e6e0538ba65ae569707ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:40 +0000
Subject: [PATCH 26/66] fix: let break-points without a time factor span one
 cycle

The default factor was -1, which put all the points at time zero.
---
 rs/parser/src/nodes.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 16d71b2..b5712f6 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -207,7 +207,7 @@ impl Node<'_> for Points {
         pairs: &mut Pairs<'_, Rule>,
         span: Span<'_>,
     ) -> Result<Self, Box<Error<Rule>>> {
-        let mut node_span = -1.0;
+        let mut node_span = 1.0;
         let mut is_looping = false;
         let points = pairs.next().ok_or_else(|| {
             span.as_end_span()
@@ -226,7 +226,6 @@ impl Node<'_> for Points {
                     };
                 },
                 Rule::is_looping => {
-                    node_span = 1.0;
                     is_looping = true;
                 },
             )
-- 
2.43.0


From 80986e22259c43fe5ac0a6e2ad6b92d92761e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:44 +0000
Subject: [PATCH 27/66] fix: interpolate break-points between the right
 neighbours

The search returned the next point instead of the previous one: the first
sample panicked, the value after the last point ran away instead of staying
there, and loops of three or more points used the wrong segment.
---
 rs/synth/src/node/signal/points.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index b2be374..b412cc3 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -109,7 +109,7 @@ impl<const N: usize> Node<N> for Points {
                 let pos = self.step;
                 let samples = &self.point_list;
 
-                let index = samples.iter().position(|s| pos <= s.0).map_or(0, |p| p - 1);
+                let index = samples.iter().rposition(|s| s.0 <= pos).unwrap_or(0);
 
                 // println!("index {} pos {} samples {:?}", index, pos, samples);
                 if index < samples.len() - 1 {
@@ -132,19 +132,17 @@ impl<const N: usize> Node<N> for Points {
                 let period = bar_dur;
                 let samples = &self.point_list;
 
-                let prev = samples.iter().enumerate().find(|(_, (s, _))| pos <= *s);
-
-                let is_last = prev.is_none();
-                let (index, (prev_pos, prev_val)) =
-                    prev.unwrap_or_else(|| (samples.len() - 1, samples.last().unwrap()));
+                let index = samples.iter().rposition(|s| s.0 <= pos).unwrap_or(0);
+                let is_last = index == samples.len() - 1;
+                let (prev_pos, prev_val) = samples[index];
 
                 let (next_pos, next_val) = samples[(index + 1) % samples.len()];
 
                 let t = if is_last {
-                    (pos as f32 - *prev_pos as f32)
-                        / (period as f32 - *prev_pos as f32 + next_pos as f32)
+                    (pos as f32 - prev_pos as f32)
+                        / (period as f32 - prev_pos as f32 + next_pos as f32)
                 } else {
-                    (pos as f32 - *prev_pos as f32) / (next_pos as f32 - *prev_pos as f32)
+                    (pos as f32 - prev_pos as f32) / (next_pos as f32 - prev_pos as f32)
                 };
                 *out = prev_val + t * (next_val - prev_val);
 
-- 
2.43.0


From ae04b20819f78c85a929ec9ef7cfe1176afa71be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:48 +0000
Subject: [PATCH 28/66] fix: accept an empty break-point list and a zero time
 factor

Both panicked.
---
 rs/synth/src/node/signal/points.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index b412cc3..976a61f 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -86,7 +86,7 @@ impl Points {
             })
             .collect::<Vec<_>>();
 
-        if point_list[0].0 != 0 {
+        if point_list.first().is_some_and(|point| point.0 != 0) {
             point_list.insert(0, (0, 0.0));
         }
 
@@ -102,7 +102,7 @@ impl<const N: usize> Node<N> for Points {
             return;
         }
         let cycle_dur = 60. / self.bpm * 4.;
-        let bar_dur = (cycle_dur * self.span * self.sr as f32) as usize;
+        let bar_dur = ((cycle_dur * self.span * self.sr as f32) as usize).max(1);
 
         if !self.is_looping {
             for out in &mut *output[0] {
-- 
2.43.0


From fd70d211e10ea1d9ebe47db039b7b9606492e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:52 +0000
Subject: [PATCH 29/66] fix: interpolate samples with the right weights and
 offsets

The weights of the two neighbouring frames were swapped. Stereo samples
also read the right channel one frame too far and never reached the last
frame.
---
 rs/synth/src/node/sampling/psampler.rs | 14 +++++++-------
 rs/synth/src/node/sampling/sampler.rs  | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index eb24ea2..17383ad 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -82,8 +82,8 @@ impl<const N: usize> Node<N> for PSampler {
                                     let pos_index_float = x * ((sample.0.len() - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     sample.0[left as usize] * left_portion
                                         + sample.0[right as usize] * right_portion
@@ -104,19 +104,19 @@ impl<const N: usize> Node<N> for PSampler {
                                 }
                                 x if x > 0.0 && x < 1.0 => {
                                     let pos_index_float =
-                                        x * (((sample.0.len() / sample.1) - 2) as f32);
+                                        x * (((sample.0.len() / sample.1) - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     output[0][i] += sample.0[left as usize] * left_portion
                                         + sample.0[right as usize] * right_portion;
 
                                     output[1][i] += sample.0
-                                        [left as usize + (sample.0.len() / sample.1) + 1]
+                                        [left as usize + (sample.0.len() / sample.1)]
                                         * left_portion
-                                        + sample.0[right as usize + (sample.0.len() / sample.1) + 1]
+                                        + sample.0[right as usize + (sample.0.len() / sample.1)]
                                             * right_portion
                                 }
                                 _ => {}
diff --git a/rs/synth/src/node/sampling/sampler.rs b/rs/synth/src/node/sampling/sampler.rs
index becf224..e323e68 100644
--- a/rs/synth/src/node/sampling/sampler.rs
+++ b/rs/synth/src/node/sampling/sampler.rs
@@ -56,8 +56,8 @@ impl<const N: usize> Node<N> for Sampler {
                                         let pos_index_float = pos * (self.endindex as f32);
                                         let left = pos_index_float.floor();
                                         let right = pos_index_float.ceil();
-                                        let left_portion = pos_index_float - left;
-                                        let right_portion = 1. - left_portion;
+                                        let right_portion = pos_index_float - left;
+                                        let left_portion = 1. - right_portion;
 
                                         self.sample.0[left as usize] * left_portion
                                             + self.sample.0[right as usize] * right_portion
@@ -77,18 +77,18 @@ impl<const N: usize> Node<N> for Sampler {
                                 }
                                 // same comment here about match arms as above
                                 0.0..=1.0 => {
-                                    let pos_index_float = pos * ((self.len - 2) as f32);
+                                    let pos_index_float = pos * ((self.len - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     output[0][i] += self.sample.0[left as usize] * left_portion
                                         + self.sample.0[right as usize] * right_portion;
 
-                                    output[1][i] += self.sample.0[left as usize + self.len + 1]
+                                    output[1][i] += self.sample.0[left as usize + self.len]
                                         * left_portion
-                                        + self.sample.0[right as usize + self.len + 1]
+                                        + self.sample.0[right as usize + self.len]
                                             * right_portion;
                                 }
                                 _ => {}
-- 
2.43.0


From 311d4e7b04d8c40ac356003e5190334c271fc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:55 +0000
Subject: [PATCH 30/66] fix: let psampler follow tempo changes and accept very
 short spans

A tempo change did not reach the node, and a span shorter than one sample
divided by zero.
---
 rs/synth/src/node/sampling/psampler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index 17383ad..f6df988 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -49,7 +49,7 @@ impl<const N: usize> Node<N> for PSampler {
         // let main_input = inputs.values_mut().next().unwrap();
         // let input_buf = &mut main_input.buffers();
 
-        let bar_dur = self.cycle_dur * self.period_in_cycle * self.sr as f32;
+        let bar_dur = (self.cycle_dur * self.period_in_cycle * self.sr as f32).max(1.0);
 
         for i in 0..N {
             // if input_buf[0][i] > 0.0 {
@@ -143,6 +143,7 @@ impl<const N: usize> Node<N> for PSampler {
                 self.samples_dict = samples_dict;
                 self.period_in_cycle = span
             }
+            Message::SetBPM(bpm) => self.cycle_dur = 60. / bpm * 4.,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
-- 
2.43.0


From fe9949b6de287760f86f7c6c49866446212b976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:37 +0000
Subject: [PATCH 31/66] fix: give the message synth its attack before its decay

The two branches of the envelope were swapped, so that the decay was heard
first and the attack ran far above full level. A malformed note message is
now ignored instead of panicking.
---
 rs/synth/src/node/synth/msgsynth.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index f351415..7a6a765 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -106,14 +106,14 @@ impl<const N: usize> Node<N> for MsgSynth {
                     let pos = self.step - synth_info.0;
 
                     let amp = match pos.cmp(&attack_n) {
-                        Ordering::Greater | Ordering::Equal => {
+                        Ordering::Less | Ordering::Equal => {
                             if attack_n == 0 {
                                 0.0
                             } else {
                                 pos as f32 / (self.att * self.sr as f32)
                             }
                         }
-                        Ordering::Less => {
+                        Ordering::Greater => {
                             if decay_n == 0 {
                                 0.0
                             } else {
@@ -161,9 +161,10 @@ impl<const N: usize> Node<N> for MsgSynth {
                         // estimate event_s "2.74343=>60"
                         // for event_s.split("=>");
                         if event_s.contains("=>") {
-                            let mut events = event_s.split("=>").map(|v| v.parse::<f32>().unwrap());
+                            let mut events = event_s.split("=>").map(|v| v.parse::<f32>());
 
-                            if let (Some(start), Some(end)) = (events.next(), events.next()) {
+                            if let (Some(Ok(start)), Some(Ok(end))) = (events.next(), events.next())
+                            {
                                 let event_n = (start * self.sr as f32) as usize;
                                 self.events.push((event_n, end));
                             }
-- 
2.43.0


From 485a49b808d1d3e88bbdc4c04ae882cd10e0b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:07 +0000
Subject: [PATCH 32/66] fix: play pattern synth notes at the engine's tempo and
 written span

The node always assumed two-second cycles and a pattern of one cycle, and
tempo changes did not reach it.
---
 rs/main/src/util.rs                      | 6 +++++-
 rs/synth/src/node/synth/pattern_synth.rs | 6 ++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index bbe2ae3..2293e0a 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -114,7 +114,11 @@ pub fn makenode<const N: usize>(
                 .collect();
 
             (
-                PatternSynth::new(events).sr(sr).to_boxed_nodedata(1),
+                PatternSynth::new(events)
+                    .sr(sr)
+                    .cycle_dur(240. / bpm)
+                    .period_in_cycle(*span)
+                    .to_boxed_nodedata(1),
                 vec![],
             )
         }
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index e234677..b64f0c6 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -58,7 +58,7 @@ impl<const N: usize> Node<N> for PatternSynth {
         let attack_n = (self.att * self.sr as f32) as usize;
         let decay_n = (self.dec * self.sr as f32) as usize;
         if inputs.is_empty() {
-            let bar_length = self.cycle_dur * self.period_in_cycle * self.sr as f32;
+            let bar_length = (self.cycle_dur * self.period_in_cycle * self.sr as f32).max(1.0);
             for out in &mut *output[0] {
                 *out = 0.0;
 
@@ -130,9 +130,7 @@ impl<const N: usize> Node<N> for PatternSynth {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-            // Message::SetBPM(bpm) => {
-            //     self.bpm = bpm
-            // },
+            Message::SetBPM(bpm) => self.cycle_dur = 240. / bpm,
             Message::SetToSymbol(0, s) => {
                 // panic!();
                 self.events.clear();
-- 
2.43.0


From d2de050f49e6181649cd8158e2131bf75c965ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 33/66] fix: let the cutoff pattern of lpf follow tempo changes

A pattern span shorter than one sample divided by zero, too.
---
 rs/synth/src/node/filter/rlpf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 4131422..bc8a14a 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -78,7 +78,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
         match inputs.len() {
             1 => {
                 let cycle_dur = 60. / self.bpm * 4.;
-                let bar_dur = cycle_dur * self.span * self.sr as f32;
+                let bar_dur = (cycle_dur * self.span * self.sr as f32).max(1.0);
 
                 // for event in &self.events {
                 //     if (self.step % (bar_dur as usize)) == ((event.1 * cycle_dur * self.sr as f32) as usize) {
@@ -151,6 +151,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                 self.pattern = p;
                 self.span = span;
             }
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::SetToNumber(pos, value) => match pos {
                 0 => self.cutoff = value,
                 1 => self.q = value,
-- 
2.43.0


From eab8644041efaf6b0beef92043fe90148da4ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:15 +0000
Subject: [PATCH 34/66] fix: play silence for expressions which cannot be
 evaluated

Malformed code and unknown variables in eval panicked.
---
 rs/synth/src/node/dynamic/eval.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rs/synth/src/node/dynamic/eval.rs b/rs/synth/src/node/dynamic/eval.rs
index 617a6eb..27f38d0 100644
--- a/rs/synth/src/node/dynamic/eval.rs
+++ b/rs/synth/src/node/dynamic/eval.rs
@@ -76,10 +76,15 @@ impl<const N: usize> Eval<N> {
                 self.var
                     .push(assign.next().unwrap().replace([' ', '\t', '\n'], ""));
             }
-            let compiled = self
+            let Ok(expression) = self
                 .parser
-                .parse(assign.next().unwrap(), &mut slab.ps)
-                .unwrap()
+                .parse(assign.next().unwrap_or_default(), &mut slab.ps)
+            else {
+                // bad code plays silence
+                self.compiled.clear();
+                return;
+            };
+            let compiled = expression
                 .from(&slab.ps)
                 .compile(&slab.ps, &mut slab.cs);
             self.slab.push(slab);
@@ -104,10 +109,10 @@ impl<const N: usize> Node<N> for Eval<N> {
             for (j, ins) in self.compiled.iter().enumerate() {
                 // println!("i is {}", j);
                 if j < self.compiled.len() - 1 {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
+                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap_or(0.0);
                     self.map.insert(self.var[j].clone(), v);
                 } else {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
+                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap_or(0.0);
                     output[0][i] = v as f32;
                 }
             }
-- 
2.43.0


From 2380db9835538829cf9e9cc81b12bda89f78bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:19 +0000
Subject: [PATCH 35/66] fix: reject code with unsupported nodes instead of
 panicking

The parser accepts some nodes which the engine cannot create: reverb, expr,
adc, event strings for lpf and psampler, malformed note lists for psynth.
They now give an error like any other mistake in the code.
---
 rs/main/src/util.rs | 46 +++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 2293e0a..6eb92ff 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -26,6 +26,11 @@ use glicol_synth::dynamic::Eval;
 use glicol_synth::sampling::{PSampler, Sampler};
 
 use crate::EngineError;
+use glicol_parser::Rule;
+use pest::{
+    error::{Error, ErrorVariant},
+    Position,
+};
 use glicol_synth::{BoxedNodeSend, NodeData}; //, Processor, Buffer, Input, Node
 use hashbrown::HashMap;
 
@@ -44,8 +49,8 @@ pub fn makenode<const N: usize>(
         Component::PSampler(psampler) => {
             let mut samples_dict_selected = HashMap::new();
             let (pattern, span) = match psampler {
-                nodes::PSampler::Event(_) => panic!("An event inside PSampler is not yet supported; please file an issue if you encounter this"),
-                nodes::PSampler::Pattern(ref pat) => (&pat.event, pat.span)
+                nodes::PSampler::Event(_) => return Err(unsupported(Rule::event)),
+                nodes::PSampler::Pattern(ref pat) => (&pat.event, pat.span),
             };
 
             let pattern = pattern
@@ -107,11 +112,12 @@ pub fn makenode<const N: usize>(
                     let mut result = event
                         .split(' ')
                         .filter(|x| !x.is_empty())
-                        .map(|x| x.replace(' ', "").parse::<f32>().unwrap());
+                        .map_while(|x| x.replace(' ', "").parse::<f32>().ok());
 
-                    (result.next().unwrap(), result.next().unwrap())
+                    result.next().zip(result.next())
                 })
-                .collect();
+                .collect::<Option<_>>()
+                .ok_or_else(|| unsupported(Rule::pattern_synth))?;
 
             (
                 PatternSynth::new(events)
@@ -192,9 +198,7 @@ pub fn makenode<const N: usize>(
                         .sr(sr)
                         .to_boxed_nodedata(1)
                 }
-                nodes::Signal::Event(_) => {
-                    panic!("An event as a parameter to lpf is not currently supported")
-                }
+                nodes::Signal::Event(_) => return Err(unsupported(Rule::event)),
             };
             (data, reflist)
         }
@@ -407,17 +411,16 @@ pub fn makenode<const N: usize>(
                 reflist,
             )
         }
-        Component::Reverb(_) | Component::Expr(_) => {
-            panic!("{component:?} is currently not supported within the engine")
-        }
+        Component::Reverb(_) => return Err(unsupported(Rule::reverb)),
+        Component::Expr(_) => return Err(unsupported(Rule::expr)),
         #[cfg(not(feature = "use-samples"))]
-        Component::Sp(_) | Component::PSampler(_) => {
-            panic!("The `use-samples` feature is required to use the `sp` or `psampler` node")
-        }
+        Component::Sp(_) => return Err(unsupported(Rule::sp)),
+        #[cfg(not(feature = "use-samples"))]
+        Component::PSampler(_) => return Err(unsupported(Rule::psampler)),
         #[cfg(not(feature = "bela"))]
-        Component::Adc(_) => panic!("The `bela` feature is required to use the `adc` node"),
+        Component::Adc(_) => return Err(unsupported(Rule::adc)),
         #[cfg(not(feature = "use-meta"))]
-        Component::Meta(_) => panic!("The `use-meta` feature is required to use the `meta` node"),
+        Component::Meta(_) => return Err(unsupported(Rule::meta)),
         // "sendpass" => {
         //     let reflist = match &paras[0] {
         //         GlicolPara::RefList(v) => {
@@ -431,6 +434,17 @@ pub fn makenode<const N: usize>(
     Ok((nodedata, reflist))
 }
 
+/// The error for a node which the parser accepts but this engine cannot create.
+fn unsupported(rule: Rule) -> EngineError {
+    EngineError::ParsingError(Box::new(Error::new_from_pos(
+        ErrorVariant::ParsingError {
+            positives: vec![],
+            negatives: vec![rule],
+        },
+        Position::from_start(""),
+    )))
+}
+
 fn get_one_para_from_number_or_ref<const N: usize, T>(
     param: &nodes::NumberOrRef<&str>,
     channels: usize,
-- 
2.43.0


From 1538aa1285e8351d3954ea02bae33e122391b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:01 +0000
Subject: [PATCH 36/66] fix: report a full ring buffer as full

The test was inverted.
---
 js/npm/ringbuf.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/ringbuf.js b/js/npm/ringbuf.js
index 38e040a..ea972ec 100644
--- a/js/npm/ringbuf.js
+++ b/js/npm/ringbuf.js
@@ -135,7 +135,7 @@ export class RingBuffer {
     var rd = Atomics.load(this.read_ptr, 0);
     var wr = Atomics.load(this.write_ptr, 0);
 
-    return (wr + 1) % this.capacity != rd;
+    return (wr + 1) % this.capacity == rd;
     }
     // The usable capacity for the ring buffer: the number of elements that can be
     // stored.
-- 
2.43.0


From 4e696f657594afef992e773135a5e8fe8ee492f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:03 +0000
Subject: [PATCH 37/66] fix: report nothing to read in an empty ring buffer

available_read() answered with the whole storage size.
---
 js/npm/ringbuf.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/ringbuf.js b/js/npm/ringbuf.js
index ea972ec..0a7473a 100644
--- a/js/npm/ringbuf.js
+++ b/js/npm/ringbuf.js
@@ -162,7 +162,7 @@ export class RingBuffer {
     // private methods //
     // Number of elements available for reading, given a read and write pointer..
     _available_read(rd, wr) {
-    if (wr > rd) {
+    if (wr >= rd) {
         return wr - rd;
     } else {
         return wr + this._storage_capacity() - rd;
-- 
2.43.0


From ffe16fb543cd26d848b94644ee98fea65d750dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:05 +0000
Subject: [PATCH 38/66] fix: read no further than the published data of the
 ring buffer

pop() also copied bytes into the caller's array which the writer had not
published, past the count it returned.
---
 js/npm/ringbuf.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/ringbuf.js b/js/npm/ringbuf.js
index 0a7473a..4c63b1e 100644
--- a/js/npm/ringbuf.js
+++ b/js/npm/ringbuf.js
@@ -115,7 +115,7 @@ export class RingBuffer {
     var wr = Atomics.load(this.write_ptr, 0);
     if (wr == rd) {return 0;}
     let to_read = Math.min(this._available_read(rd, wr), elements.length);
-    let first_part = Math.min(this._storage_capacity() - rd, elements.length);
+    let first_part = Math.min(this._storage_capacity() - rd, to_read);
     let second_part = to_read - first_part;
     this._copy(this.storage, rd, elements, 0, first_part);
     this._copy(this.storage, 0, elements, first_part, second_part);
-- 
2.43.0


From a87873cc5c7a4fa1f976f4c66900744b077b81e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:07 +0000
Subject: [PATCH 39/66] fix: close the note list of psynth in the node chain
 builder

The generated code was a syntax error.
---
 js/npm/nodechain.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/nodechain.js b/js/npm/nodechain.js
index 2abb9a4..952f0e6 100644
--- a/js/npm/nodechain.js
+++ b/js/npm/nodechain.js
@@ -49,7 +49,7 @@ export function seq(str) {
 
 export function psynth(str, span) {
   if (!isNaN(span)) {
-    return new NodeChain(`p_synth \`${str} ${span}`)
+    return new NodeChain(`p_synth \`${str}\` ${span}`)
   }
 }
 
-- 
2.43.0


From 5d9e4aab5c09406845f14cac8ee8c478c53eb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:54 +0000
Subject: [PATCH 40/66] fix: ignore malformed note lists in messages to the
 pattern synth

They panicked.
---
 rs/synth/src/node/synth/pattern_synth.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index b64f0c6..2bba2a3 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -133,18 +133,22 @@ impl<const N: usize> Node<N> for PatternSynth {
             Message::SetBPM(bpm) => self.cycle_dur = 240. / bpm,
             Message::SetToSymbol(0, s) => {
                 // panic!();
-                self.events.clear();
                 let pattern = s.replace('`', "");
-                for event in pattern.split(',') {
-                    // println!("event {:?}", event);
-                    let mut result = event
-                        .split(' ')
-                        .filter(|x| !x.is_empty())
-                        .map(|x| x.replace(' ', "").parse::<f32>().unwrap());
+                let events = pattern
+                    .split(',')
+                    .map(|event| {
+                        // println!("event {:?}", event);
+                        let mut result = event
+                            .split(' ')
+                            .filter(|x| !x.is_empty())
+                            .map_while(|x| x.replace(' ', "").parse::<f32>().ok());
 
-                    // println!("result {:?}", result);
-                    self.events
-                        .push((result.next().unwrap(), result.next().unwrap()));
+                        // println!("result {:?}", result);
+                        result.next().zip(result.next())
+                    })
+                    .collect::<Option<Vec<_>>>();
+                if let Some(events) = events {
+                    self.events = events;
                 }
             }
             Message::SetRefOrder(ref_order) => {
-- 
2.43.0


From 73dec07006474745bd7f22a48f34431ac87e169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:58 +0000
Subject: [PATCH 41/66] fix: silence eval when a message replaces its code by
 bad code

The node repeated its last block.
---
 rs/synth/src/node/dynamic/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/synth/src/node/dynamic/eval.rs b/rs/synth/src/node/dynamic/eval.rs
index 27f38d0..31b46f1 100644
--- a/rs/synth/src/node/dynamic/eval.rs
+++ b/rs/synth/src/node/dynamic/eval.rs
@@ -95,6 +95,9 @@ impl<const N: usize> Eval<N> {
 
 impl<const N: usize> Node<N> for Eval<N> {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
+        if self.compiled.is_empty() {
+            output[0].silence();
+        }
         for i in 0..N {
             if !inputs.is_empty() {
                 self.map.insert(
-- 
2.43.0


From fc292c8c2d48f3be843ca8f660a13663379fb2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:46 +0000
Subject: [PATCH 42/66] fix: let balance take the same chain on both sides

The node stayed silent because it counted different inputs.
---
 rs/synth/src/node/effect/balance.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/effect/balance.rs b/rs/synth/src/node/effect/balance.rs
index 6732175..6f0fb35 100644
--- a/rs/synth/src/node/effect/balance.rs
+++ b/rs/synth/src/node/effect/balance.rs
@@ -23,9 +23,10 @@ impl<const N: usize> Node<N> for Balance {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         // println!("inputs {:?} self.input_order {:?}", inputs, self.input_order);
         // panic!();
-        if inputs.len() == 2 {
-            let left = &inputs[&self.input_order[0]];
-            let right = &inputs[&self.input_order[1]];
+        let [.., left, right] = *self.input_order else {
+            return;
+        };
+        if let (Some(left), Some(right)) = (inputs.get(&left), inputs.get(&right)) {
             output[0] = left.buffers()[0].clone();
             output[1] = right.buffers()[0].clone();
         }
-- 
2.43.0


From afb2a5e90cbf8e0bd13fd3babeb60ab30051eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:24 +0000
Subject: [PATCH 43/66] fix: psampler keeps the channels of a stereo sample
 while a mono sample plays

---
 rs/synth/src/node/sampling/psampler.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index f6df988..665f344 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -75,7 +75,7 @@ impl<const N: usize> Node<N> for PSampler {
                     let sample = self.samples_dict[name];
                     match sample.1 {
                         1 => {
-                            output[0][i] += match pos {
+                            let value = match pos {
                                 x if x == 0.0 => sample.0[0],
                                 x if x == 1.0 => sample.0[sample.0.len() - 1],
                                 x if x > 0.0 && x < 1.0 => {
@@ -90,7 +90,8 @@ impl<const N: usize> Node<N> for PSampler {
                                 }
                                 _ => 0.0,
                             };
-                            output[1][i] = output[0][i];
+                            output[0][i] += value;
+                            output[1][i] += value;
                         }
                         2 => {
                             match pos {
-- 
2.43.0


From 327966655e3db5e1d4caf09bc07756b7edf1ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:09 +0000
Subject: [PATCH 44/66] fix: eval keeps the first and last character of its
 code

The grammar hands the code of eval over without backticks, so cutting off
both ends lost two characters and panicked on code shorter than that.
---
 rs/parser/src/nodes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index b5712f6..79005d3 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -1115,7 +1115,8 @@ impl<'ast> Node<'ast> for CodeBlock<'ast> {
             .as_str();
 
         Ok(Self {
-            code: &s[1..s.len() - 1],
+            // the code of eval comes without its backticks
+            code: s.trim_matches('`'),
         })
     }
 }
-- 
2.43.0


From c8a84a2af95c7a2c3faaa44a34e449c97cc1fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:15 +0000
Subject: [PATCH 45/66] fix: no overflow for endless envperc stages

---
 rs/synth/src/node/envelope/envperc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/envelope/envperc.rs b/rs/synth/src/node/envelope/envperc.rs
index 52f02fc..ff8e80f 100644
--- a/rs/synth/src/node/envelope/envperc.rs
+++ b/rs/synth/src/node/envelope/envperc.rs
@@ -47,7 +47,7 @@ impl<const N: usize> Node<N> for EnvPerc {
         if inputs.len() == 1 {
             let attack_len = (self.attack * self.sr as f32) as usize;
             let decay_len = (self.decay * self.sr as f32) as usize;
-            let dur = attack_len + decay_len;
+            let dur = attack_len.saturating_add(decay_len);
             let buf = &mut inputs[&self.input_order[0]].buffers();
 
             for (input, out) in buf[0].iter().zip(output[0].iter_mut()) {
-- 
2.43.0


From 3d2dd5e9e239cc7541d2af50ccf1f16031ac5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:31 +0000
Subject: [PATCH 46/66] fix: no overflow for an endless adsr decay

---
 rs/synth/src/node/envelope/adsr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/envelope/adsr.rs b/rs/synth/src/node/envelope/adsr.rs
index b96f06e..2a475cb 100644
--- a/rs/synth/src/node/envelope/adsr.rs
+++ b/rs/synth/src/node/envelope/adsr.rs
@@ -99,13 +99,15 @@ impl<const N: usize> Node<N> for Adsr {
                                     * (1.0 - self.state_change_y)
                                     + self.state_change_y;
                             }
-                        } else if self.pos > attack_len && self.pos <= attack_len + decay_len {
+                        } else if self.pos > attack_len
+                            && self.pos <= attack_len.saturating_add(decay_len)
+                        {
                             // decay phase
                             if decay_len == 0 {
                                 // special case
                                 *out = self.sustain;
                             } else {
-                                *out = (attack_len + decay_len - self.pos) as f32
+                                *out = (attack_len.saturating_add(decay_len) - self.pos) as f32
                                     / decay_len as f32
                                     * (1. - self.sustain)
                                     + self.sustain;
-- 
2.43.0


From 2ea352fdc9c480cf9a083f83240285fd478eae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:35 +0000
Subject: [PATCH 47/66] fix: reject code that defines a chain with the name of
 the audio input

Such a chain was mixed up with the input node: the next block wrote the input
into a node of the chain (or panicked), and removing the chain later removed
the input node, after which every block panicked.
---
 rs/main/src/lib.rs  | 9 +++++++--
 rs/main/src/util.rs | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 1fdbf95..1566709 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -3,13 +3,13 @@
 pub mod util;
 use std::collections::VecDeque;
 
-use util::makenode;
+use util::{makenode, unsupported};
 pub mod error;
 pub use error::{get_error_info, EngineError};
 use glicol_parser::{
     get_ast,
     nodes::{Ast, Component, UsizeOrRef},
-    ToInnerOwned as _,
+    Rule, ToInnerOwned as _,
 };
 use glicol_synth::{
     AudioContext, AudioContextConfig, BoxedNodeSend, Buffer, GlicolGraph, GlicolPara, Message,
@@ -185,6 +185,11 @@ impl<const N: usize> Engine<N> {
         let new_ast: YokedAst =
             Yoke::try_attach_to_cart(code.to_owned().into_boxed_str(), |code| get_ast(code))?;
 
+        // the name of the audio input is taken
+        if new_ast.get().nodes.contains_key("~input") {
+            return Err(unsupported(Rule::line));
+        }
+
         self.temp_node_index.clear();
 
         let mut graph_diff = GraphDiff::default();
diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 6eb92ff..737e29c 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -434,8 +434,8 @@ pub fn makenode<const N: usize>(
     Ok((nodedata, reflist))
 }
 
-/// The error for a node which the parser accepts but this engine cannot create.
-fn unsupported(rule: Rule) -> EngineError {
+/// The error for something which the parser accepts but this engine cannot create.
+pub(crate) fn unsupported(rule: Rule) -> EngineError {
     EngineError::ParsingError(Box::new(Error::new_from_pos(
         ErrorVariant::ParsingError {
             positives: vec![],
-- 
2.43.0


From a2c4f2b2c0208383088633300e21e8e3a376e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:25 +0000
Subject: [PATCH 48/66] fix: a loose reference does not match the node it is
 given to

The edge from the node to itself is not processed, but its index took the
place of the first input, so the next block could panic.
---
 rs/main/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 1566709..a6ddc99 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -530,8 +530,10 @@ impl<const N: usize> Engine<N> {
                 if refname.contains("..") {
                     // println!("look for {}", &refname.replace("..", ""));
                     for (key, value) in self.index_info.iter() {
-                        if key.starts_with(&refname.replace("..", "")) {
-                            self.context.connect(*value.last().unwrap(), index);
+                        let source = *value.last().unwrap();
+                        // a node gets no input from itself
+                        if key.starts_with(&refname.replace("..", "")) && source != index {
+                            self.context.connect(source, index);
                         }
                     }
                 } else {
-- 
2.43.0


From 603d55823765e3dd4f1f41743cb4cd340aefb4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:14 +0000
Subject: [PATCH 49/66] fix: tell the nodes of add_node_chain about their
 inputs

The edges were made without the index message every node needs to find its
input, so the first block of such a chain panicked.
---
 rs/synth/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/context.rs b/rs/synth/src/context.rs
index cfb72dd..a6615a0 100644
--- a/rs/synth/src/context.rs
+++ b/rs/synth/src/context.rs
@@ -238,7 +238,7 @@ impl<const N: usize> AudioContext<N> {
 
         let j = v
             .windows(2)
-            .map(|pair| self.graph.add_edge(pair[0], pair[1], ()))
+            .map(|pair| self.connect(pair[0], pair[1]))
             .collect();
 
         (v, j)
-- 
2.43.0


From dbb6b1cc363e268df7aa0afe637962fb3ba66fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:17 +0000
Subject: [PATCH 50/66] fix: pass messages on to a boxed node

A node given to the context in a Box received none, not even the ones that
tell it its inputs.
---
 rs/synth/src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/mod.rs b/rs/synth/src/node/mod.rs
index 2e59686..4c96b42 100644
--- a/rs/synth/src/node/mod.rs
+++ b/rs/synth/src/node/mod.rs
@@ -116,7 +116,9 @@ where
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         (**self).process(inputs, output)
     }
-    fn send_msg(&mut self, _info: crate::Message) {}
+    fn send_msg(&mut self, info: crate::Message) {
+        (**self).send_msg(info)
+    }
 }
 
 impl<const N: usize> Node<N> for dyn Fn(&HashMap<usize, Input<N>>, &mut [Buffer<N>]) {
-- 
2.43.0


From 9373741ef23086b28a14d95e324cf9ca8488a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:45 +0000
Subject: [PATCH 51/66] fix: run code with a hash sign outside of a script as
 it is

The page evaluates the parts of the code between ## and # as scripts. A
single hash anywhere else, such as a note name in a comment, made the whole
part around it be evaluated too; that failed and the code was replaced by
nothing, so the music stopped.
---
 js/src/glicol.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/glicol.js b/js/src/glicol.js
index 6883d60..d66eec0 100644
--- a/js/src/glicol.js
+++ b/js/src/glicol.js
@@ -121,7 +121,7 @@ window.run = async (codeRaw) => {
   let regex = /(##.*?#)/s
   let parse = codeRaw.split(regex).filter(Boolean)
   let code = parse.map(str => {
-      if (str.includes("#")) {
+      if (regex.test(str)) {
         try {
           let result = str.includes('\\n') || str.includes(';') ?
           Function(`'use strict'; return ()=>{${str.replaceAll("#", "")}}`)()() :
-- 
2.43.0


From 87dafd1df14b18792496b9a5b9797234fbbec165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:45 +0000
Subject: [PATCH 52/66] fix: show syntax errors whose message was cut off

The message of the engine is cut after 254 bytes. When the list of expected
words was longer, the page looked for the second list, did not find it, and
threw before it had told the user where the error was.
---
 js/src/glicol.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/src/glicol.js b/js/src/glicol.js
index d66eec0..92dc13a 100644
--- a/js/src/glicol.js
+++ b/js/src/glicol.js
@@ -90,8 +90,8 @@ window.loadModule = async () => {
 
           let line = parseInt(info.split("line[")[1].split("]")[0])
           let col = parseInt(info.split("col[")[1].split("]")[0])
-          let positives = info.split("positives[")[1].split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
-          let negatives = info.split("negatives[")[1].split("]")[0].split(",").join(" or")
+          let positives = (info.split("positives[")[1] ?? "").split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
+          let negatives = (info.split("negatives[")[1] ?? "").split("]")[0].split(",").join(" or")
           log(`%cError at line ${line}`, "background: #3b82f6; color:white; font-weight: bold")
           let errline = window.code.split("\n")[line-1];
           let styleErrLine = errline.slice(0, col-1) + "%c %c" + errline.slice(col-1);
-- 
2.43.0


From 3eabc475acd3debbba5792ffdcdc1cbc9b36fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:45 +0000
Subject: [PATCH 53/66] fix: show syntax errors whose message was cut off in
 the npm package

As in the page: the second list of the message can be missing.
---
 js/npm/index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 5ba9611..ace691f 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -114,8 +114,8 @@ class Engine {
                   let pos = parseInt(info.split("pos[")[1].split("]")[0])
                   let line = parseInt(info.split("line[")[1].split("]")[0])
                   let col = parseInt(info.split("col[")[1].split("]")[0])
-                  let positives = info.split("positives[")[1].split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
-                  let negatives = info.split("negatives[")[1].split("]")[0].split(",").join(" or")
+                  let positives = (info.split("positives[")[1] ?? "").split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
+                  let negatives = (info.split("negatives[")[1] ?? "").split("]")[0].split(",").join(" or")
                   console.log(`%cError at line ${line}`, "background: #3b82f6; color:white; font-weight: bold")
                   let errline = this.code.split("\n")[line-1];
                   let styleErrLine = errline.slice(0, col-1) + "%c %c" + errline.slice(col-1);
-- 
2.43.0


From 1261baf17aafb6786fa66408c9639a1b9ed0fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:45 +0000
Subject: [PATCH 54/66] fix: remember the code given to run for error messages

Only play did; after run with a syntax error the error could not be shown
because there was no code to point into.
---
 js/npm/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index ace691f..4c15618 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -162,6 +162,7 @@ class Engine {
     }
     run(code) {
 
+      this.code = code
       this.audioContext.resume()
       if (isSharedArrayBufferSupported) {
         // console.log("isSharedArrayBufferSupported", isSharedArrayBufferSupported);
@@ -219,7 +220,6 @@ class Engine {
         code += obj[key].code + ";\n\n"
       }
       console.log(code)
-      this.code = code
       this.run(code)
     }
 
-- 
2.43.0


From 4f1b1dbf58b047c238c364c70ca983c41ec775bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:45 +0000
Subject: [PATCH 55/66] fix: use the encoder of the engine for samples added
 before it is ready

There is no variable encoder, so an engine that had samples when it became
ready threw instead of loading them, and onLoaded was never called.
---
 js/npm/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 4c15618..0ba7cf7 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -94,7 +94,7 @@ class Engine {
                       sample: sample,
                       channels: buffer.numberOfChannels,
                       length: buffer.length,
-                      name: encoder.encode("\\"+ key.replace("-","_")),
+                      name: this.encoder.encode("\\"+ key.replace("-","_")),
                       sr: buffer.sampleRate
                     })
                   }
-- 
2.43.0


From 3df33ceb93e3444803354f2ded2ad546757e192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:45 +0000
Subject: [PATCH 56/66] fix: stop the sound when code goes through the shared
 queue

stop ran the empty text. An empty text leaves nothing in the queue, so the
audio thread never saw it and the sound went on.
---
 js/npm/index.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 0ba7cf7..cd4ca2b 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -224,7 +224,8 @@ class Engine {
     }
 
     stop() {
-      this.run("")
+      // with a queue, nothing to write is nothing to read
+      this.run("\n")
     }
 
     showAllSamples() {
-- 
2.43.0


From 41ec4524e1627e895e402909c05f14bbe8daef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:09 +0000
Subject: [PATCH 57/66] fix: accept the msg_synth spelling of the message synth

---
 rs/parser/src/glicol.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/parser/src/glicol.pest b/rs/parser/src/glicol.pest
index 895543a..175fa42 100644
--- a/rs/parser/src/glicol.pest
+++ b/rs/parser/src/glicol.pest
@@ -109,7 +109,7 @@ integer = ${ ("+" | "-")? ~(ASCII_DIGIT)+ ~ !"." }
 WHITESPACE = _{" "|","|"|"|"\t"}
 ws = _{" "|","|"|"|"\t"|"\n"}
 
-node_name = ${"reverb"|"arrange"|"adsr"|"sig"|"psampler"|"synth"|"msgsynth"|"psynth"|"p_synth"|"pattern_synth"|
+node_name = ${"reverb"|"arrange"|"adsr"|"sig"|"psampler"|"synth"|"msgsynth"|"msg_synth"|"psynth"|"p_synth"|"pattern_synth"|
 "bd"|"sn"|"hh"|"squsynth"|"trisynth"|"seq"|"speed"|"choose"|"mul"|"add"|
 "linrange"|"apfdecay"|"delayn"|"delaymod"|"expr"|"eval"|
 "sin"|"squ"|"imp"|"envperc"|"sampler"|"noiz"|"lpf"|"plate"|"onepole"|
-- 
2.43.0


From c8ab1898eceb0f00eb48c4a7daad3fe24b8e0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:17 +0000
Subject: [PATCH 58/66] fix: the span of a pattern synth is optional, as in the
 grammar

---
 rs/parser/src/nodes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 79005d3..5153de2 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -864,7 +864,7 @@ impl<'ast> Node<'ast> for PatternSynth<'ast> {
             .ok_or_else(|| end_span.to_err_with_positives([Rule::symbol]))?
             .as_str();
 
-        let span = pairs.next_parsed(end_span)?;
+        let span = pairs.next().map_or(Ok(1.), |r| r.try_to_parse())?;
         Ok(Self { symbol, span })
     }
 }
-- 
2.43.0


From d8832182fa343a01f79c5e7ec42b3a58c651fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:09 +0000
Subject: [PATCH 59/66] fix: a separator in the span of points is not part of
 the expression

---
 rs/parser/src/nodes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 5153de2..9fcff26 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -219,7 +219,8 @@ impl Node<'_> for Points {
                 Rule::math_expression => {
                     let mut one = "1".to_owned();
                     let mut ns = fasteval::EmptyNamespace;
-                    one.push_str(math_or_loop.as_str());
+                    // commas and bars are separators here, not part of the expression
+                    one.push_str(&math_or_loop.as_str().replace([',', '|'], " "));
                     node_span = fasteval::ez_eval(&one, &mut ns).unwrap() as f32;
                     if pairs.next().is_some() {
                         is_looping = true;
-- 
2.43.0


From 172629146386d06be66e1e08883017d7f5166f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:11 +0000
Subject: [PATCH 60/66] fix: node input lists no longer grow with every edit

Only nodes with edges into them were told to forget their inputs, and
several node types ignored that message. Each edit then made their input
lists longer. Every node now learns its inputs anew.
---
 rs/main/src/lib.rs                     | 12 ++++++------
 rs/synth/src/node/compound/bd.rs       |  1 +
 rs/synth/src/node/compound/hh.rs       |  1 +
 rs/synth/src/node/compound/sawsynth.rs |  1 +
 rs/synth/src/node/compound/sn.rs       |  1 +
 rs/synth/src/node/compound/squsynth.rs |  1 +
 rs/synth/src/node/compound/trisynth.rs |  1 +
 rs/synth/src/node/signal/constsig.rs   |  1 +
 rs/synth/src/node/signal/imp.rs        |  1 +
 rs/synth/src/node/signal/noise.rs      |  1 +
 rs/synth/src/node/signal/points.rs     |  1 +
 11 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index a6ddc99..121eb21 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -513,7 +513,12 @@ impl<const N: usize> Engine<N> {
         // println!("self.refpairlist in handle_connection {:?}", self.refpairlist);
 
         // now we have to go through and actually make the graph with all the connections we have
-        let mut already_reset = std::collections::HashSet::new();
+        // every node learns its inputs anew
+        for index in self.index_info.values().flatten() {
+            self.context.graph[*index]
+                .node
+                .send_msg(Message::ResetOrder);
+        }
         for (reflist, name, new_idx) in &graph_diff.refpairlist {
             let Some(chain) = self.index_info.get(*name) else {
                 return Err(EngineError::NonExistReference(name.to_string()));
@@ -521,11 +526,6 @@ impl<const N: usize> Engine<N> {
 
             let index = chain[*new_idx];
 
-            if !already_reset.contains(&index) {
-                self.context.graph[index].node.send_msg(Message::ResetOrder);
-                already_reset.insert(index);
-            }
-
             for refname in reflist {
                 if refname.contains("..") {
                     // println!("look for {}", &refname.replace("..", ""));
diff --git a/rs/synth/src/node/compound/bd.rs b/rs/synth/src/node/compound/bd.rs
index 9c62790..f6374af 100644
--- a/rs/synth/src/node/compound/bd.rs
+++ b/rs/synth/src/node/compound/bd.rs
@@ -72,6 +72,7 @@ impl<const N: usize> Node<N> for Bd<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/hh.rs b/rs/synth/src/node/compound/hh.rs
index 5be4453..d06c852 100644
--- a/rs/synth/src/node/compound/hh.rs
+++ b/rs/synth/src/node/compound/hh.rs
@@ -65,6 +65,7 @@ impl<const N: usize> Node<N> for Hh<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/sawsynth.rs b/rs/synth/src/node/compound/sawsynth.rs
index f6a462c..769c45d 100644
--- a/rs/synth/src/node/compound/sawsynth.rs
+++ b/rs/synth/src/node/compound/sawsynth.rs
@@ -72,6 +72,7 @@ impl<const N: usize> Node<N> for SawSynth<N> {
             },
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/sn.rs b/rs/synth/src/node/compound/sn.rs
index 8bb0813..cb583fc 100644
--- a/rs/synth/src/node/compound/sn.rs
+++ b/rs/synth/src/node/compound/sn.rs
@@ -81,6 +81,7 @@ impl<const N: usize> Node<N> for Sn<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/squsynth.rs b/rs/synth/src/node/compound/squsynth.rs
index 3a2c767..82ab19a 100644
--- a/rs/synth/src/node/compound/squsynth.rs
+++ b/rs/synth/src/node/compound/squsynth.rs
@@ -60,6 +60,7 @@ impl<const N: usize> Node<N> for SquSynth<N> {
 
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/trisynth.rs b/rs/synth/src/node/compound/trisynth.rs
index 1392b33..5a015e8 100644
--- a/rs/synth/src/node/compound/trisynth.rs
+++ b/rs/synth/src/node/compound/trisynth.rs
@@ -60,6 +60,7 @@ impl<const N: usize> Node<N> for TriSynth<N> {
 
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/constsig.rs b/rs/synth/src/node/signal/constsig.rs
index 015d297..7d8044f 100644
--- a/rs/synth/src/node/signal/constsig.rs
+++ b/rs/synth/src/node/signal/constsig.rs
@@ -83,6 +83,7 @@ impl<const N: usize> Node<N> for ConstSig {
             Message::SetBPM(bpm) => self.bpm = bpm,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/imp.rs b/rs/synth/src/node/signal/imp.rs
index 68c01c7..a122974 100644
--- a/rs/synth/src/node/signal/imp.rs
+++ b/rs/synth/src/node/signal/imp.rs
@@ -55,6 +55,7 @@ impl<const N: usize> Node<N> for Impulse {
             },
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/noise.rs b/rs/synth/src/node/signal/noise.rs
index fc16335..f843f47 100644
--- a/rs/synth/src/node/signal/noise.rs
+++ b/rs/synth/src/node/signal/noise.rs
@@ -28,6 +28,7 @@ impl<const N: usize> Node<N> for Noise {
             Message::SetToNumber(0, value) => self.sig = Box::new(signal::noise(value as u64)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index 976a61f..b7000c4 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -167,6 +167,7 @@ impl<const N: usize> Node<N> for Points {
             Message::SetBPM(bpm) => self.bpm = bpm,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
-- 
2.43.0


From 9393f2996eaba499a978e9320139e8ad3d4af087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:11 +0000
Subject: [PATCH 61/66] fix: variables a meta script declares no longer pile up

The scope kept every variable a script declared with let, one more for
each block. What the script declares now lasts for one run of it.
---
 rs/synth/src/node/dynamic/meta.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/synth/src/node/dynamic/meta.rs b/rs/synth/src/node/dynamic/meta.rs
index 1ca70ae..73994a7 100644
--- a/rs/synth/src/node/dynamic/meta.rs
+++ b/rs/synth/src/node/dynamic/meta.rs
@@ -107,6 +107,8 @@ impl<const N: usize> Node<N> for Meta<N> {
             // self.engine.optimize_ast();
         }
 
+        // what the script declares lasts for one run of it
+        let declared = self.scope.len();
         match self
             .engine
             .eval_ast_with_scope::<Array>(&mut self.scope, &self.ast)
@@ -123,6 +125,7 @@ impl<const N: usize> Node<N> for Meta<N> {
                 _ = e;
             }
         }
+        self.scope.rewind(declared);
         // self.phase += N;
     }
     fn send_msg(&mut self, info: Message) {
-- 
2.43.0


From 9c4d14a71bfd0edbc416d69ce51a24eac8ad2f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:11 +0000
Subject: [PATCH 62/66] fix: the message synth forgets notes that have started

Every note sent to it stayed in its event list for ever, so the list grew
with each message.
---
 rs/synth/src/node/synth/msgsynth.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index 7a6a765..db9d99f 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -141,6 +141,10 @@ impl<const N: usize> Node<N> for MsgSynth {
             }
             self.step += 1;
         }
+
+        // the notes that have started are not needed any more
+        let step = self.step;
+        self.events.retain(|event| event.0 >= step);
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-- 
2.43.0


From 86e4e4926e35ae88c5952da8d3a726d909f32868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:05 +0000
Subject: [PATCH 63/66] fix: oscillators keep their phase within one period

A negative frequency, or one above the sample rate, moved the phase away
for ever: the square wave stopped and the saw and triangle left the range
from -1 to 1. The phase now wraps whichever way and however far it moves.
---
 rs/synth/src/node/oscillator/saw_osc.rs | 4 ++--
 rs/synth/src/node/oscillator/sin_osc.rs | 8 ++++----
 rs/synth/src/node/oscillator/squ_osc.rs | 4 ++--
 rs/synth/src/node/oscillator/tri_osc.rs | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rs/synth/src/node/oscillator/saw_osc.rs b/rs/synth/src/node/oscillator/saw_osc.rs
index c9970b6..80e703f 100644
--- a/rs/synth/src/node/oscillator/saw_osc.rs
+++ b/rs/synth/src/node/oscillator/saw_osc.rs
@@ -49,8 +49,8 @@ impl<const N: usize> Node<N> for SawOsc {
             |out, freq| {
                 *out = self.phase * 2. - 1.;
                 self.phase += freq / self.sr as f32;
-                if self.phase > 1. {
-                    self.phase -= 1.
+                if self.phase > 1. || self.phase < 0. {
+                    self.phase = self.phase.rem_euclid(1.)
                 }
             },
         );
diff --git a/rs/synth/src/node/oscillator/sin_osc.rs b/rs/synth/src/node/oscillator/sin_osc.rs
index 58c80d3..b352e69 100644
--- a/rs/synth/src/node/oscillator/sin_osc.rs
+++ b/rs/synth/src/node/oscillator/sin_osc.rs
@@ -43,8 +43,8 @@ impl<const N: usize> Node<N> for SinOsc {
                         buf[i] = (self.phase * 2.0 * std::f32::consts::PI).sin();
                     }
                     self.phase += self.freq / self.sr as f32;
-                    if self.phase > 1.0 {
-                        self.phase -= 1.0
+                    if self.phase > 1. || self.phase < 0. {
+                        self.phase = self.phase.rem_euclid(1.)
                     }
                 }
             }
@@ -60,8 +60,8 @@ impl<const N: usize> Node<N> for SinOsc {
                     }
 
                     self.phase += mod_buf / self.sr as f32;
-                    if self.phase > 1.0 {
-                        self.phase -= 1.0
+                    if self.phase > 1. || self.phase < 0. {
+                        self.phase = self.phase.rem_euclid(1.)
                     }
                 }
             }
diff --git a/rs/synth/src/node/oscillator/squ_osc.rs b/rs/synth/src/node/oscillator/squ_osc.rs
index d4d7005..803b780 100644
--- a/rs/synth/src/node/oscillator/squ_osc.rs
+++ b/rs/synth/src/node/oscillator/squ_osc.rs
@@ -52,8 +52,8 @@ impl<const N: usize> Node<N> for SquOsc {
                 }
 
                 self.phase += freq / self.sr as f32;
-                if self.phase > 1. {
-                    self.phase -= 1.
+                if self.phase > 1. || self.phase < 0. {
+                    self.phase = self.phase.rem_euclid(1.)
                 }
             },
         );
diff --git a/rs/synth/src/node/oscillator/tri_osc.rs b/rs/synth/src/node/oscillator/tri_osc.rs
index 155d198..bf1b6eb 100644
--- a/rs/synth/src/node/oscillator/tri_osc.rs
+++ b/rs/synth/src/node/oscillator/tri_osc.rs
@@ -50,8 +50,8 @@ impl<const N: usize> Node<N> for TriOsc {
                 *out = 2.0 * (v.abs() - 0.5);
                 self.phase += freq / self.sr as f32;
 
-                if self.phase > 1. {
-                    self.phase -= 1.
+                if self.phase > 1. || self.phase < 0. {
+                    self.phase = self.phase.rem_euclid(1.)
                 }
             },
         );
-- 
2.43.0


From dc63e6cb8da4414f824d56894d221b76dc284ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:04:05 +0000
Subject: [PATCH 64/66] fix: let seq read the speed from a block of one sample

---
 rs/synth/src/node/sequencer/seq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index dac46fe..6275618 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -73,7 +73,7 @@ impl<const N: usize> Node<N> for Sequencer {
                 self.speed = 1.0;
                 if has_upstream {
                     let possible_speed = &inputs[&self.input_order[0]].buffers()[0];
-                    if possible_speed[0] > 0. && possible_speed[1] == 0. {
+                    if possible_speed[0] > 0. && possible_speed.get(1).map_or(true, |x| *x == 0.) {
                         self.speed = possible_speed[0];
                     }
                 }
-- 
2.43.0


From 3ebc3bd4e7e288a81f7bc1163146f76f135a1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:04:05 +0000
Subject: [PATCH 65/66] fix: accept a sample without frames in the sampler

---
 rs/synth/src/node/sampling/sampler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/sampling/sampler.rs b/rs/synth/src/node/sampling/sampler.rs
index e323e68..8977ae2 100644
--- a/rs/synth/src/node/sampling/sampler.rs
+++ b/rs/synth/src/node/sampling/sampler.rs
@@ -18,7 +18,7 @@ impl Sampler {
             playback: vec![],
             sample,
             len: sample.0.len() / sample.1, // total_length/channels
-            endindex: sample.0.len() - 1,
+            endindex: sample.0.len().saturating_sub(1),
             clock: 0,
             sr,
             input_order: vec![],
@@ -116,7 +116,7 @@ impl<const N: usize> Node<N> for Sampler {
             Message::SetToSamples(0, sample) => {
                 self.sample = sample;
                 self.len = sample.0.len() / sample.1;
-                self.endindex = sample.0.len() - 1;
+                self.endindex = sample.0.len().saturating_sub(1);
                 // self.playback.clear();
             }
             Message::Index(i) => self.input_order.push(i),
-- 
2.43.0


From d84123eeb9b33e0707f5e7ced3dd228b4d51a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:04:05 +0000
Subject: [PATCH 66/66] fix: keep the noise generator from counting past the
 largest seed

---
 rs/synth/src/node/sequencer/choose.rs | 2 +-
 rs/synth/src/node/signal/noise.rs     | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/sequencer/choose.rs b/rs/synth/src/node/sequencer/choose.rs
index 3c957e0..2fefbc6 100644
--- a/rs/synth/src/node/sequencer/choose.rs
+++ b/rs/synth/src/node/sequencer/choose.rs
@@ -11,7 +11,7 @@ pub struct Choose {
 impl Choose {
     pub fn new(note_list: Vec<f32>, seed: u64) -> Self {
         Self {
-            sig: Box::new(signal::noise(seed)),
+            sig: Box::new(signal::noise(seed & (u64::MAX >> 1))),
             note_list,
             input_order: Vec::new(),
         }
diff --git a/rs/synth/src/node/signal/noise.rs b/rs/synth/src/node/signal/noise.rs
index f843f47..cb507b3 100644
--- a/rs/synth/src/node/signal/noise.rs
+++ b/rs/synth/src/node/signal/noise.rs
@@ -10,6 +10,8 @@ pub struct Noise {
 
 impl Noise {
     pub fn new(seed: usize) -> Self {
+        // the generator counts the seed up, and its top bit makes no difference
+        let seed = seed & (usize::MAX >> 1);
         Self {
             sig: Box::new(signal::noise(seed as u64)),
             input_order: Vec::new(),
@@ -25,7 +27,9 @@ impl<const N: usize> Node<N> for Noise {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-            Message::SetToNumber(0, value) => self.sig = Box::new(signal::noise(value as u64)),
+            Message::SetToNumber(0, value) => {
+                self.sig = Box::new(signal::noise(value as u64 & (u64::MAX >> 1)))
+            }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => self.input_order.clear(),
-- 
2.43.0

