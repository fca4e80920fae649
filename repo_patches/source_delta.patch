From 8d9b5f69061168cf56993e6d404a58cf7d8292da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 01/28] fix: keep a wrapped action recognisable as a guard

When the pipeline terminates, deferred tasks are replaced by no-op consumers
which lower the barrier only if the task they replace is a guard. The failure
mode and tracing wrappers answered false for every task, so the barrier stayed
raised after a deny while another guard was in flight.
---
 .../src/kuadrant/pipeline/tasks/failure_mode.rs               | 4 ++++
 .../src/kuadrant/pipeline/tasks/tracing_decorator.rs          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 4ea6472..ed8088e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -46,4 +46,8 @@ impl Task for FailureModeTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
index 1eb6d18..c8273c1 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
@@ -85,4 +85,8 @@ impl Task for TracingDecoratorTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
-- 
2.43.0


From f6679b81694dc09e7c2a2d404cd0b077968e7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 02/28] fix: let tasks depending on a failed task run

A failed task was never marked as completed, so every action sequenced after
it stayed queued forever: a later guard was silently skipped and the pipeline
never finished.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 2a93e63..3cf0d5a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -132,6 +132,7 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Task failed: {:?}", task_id);
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
@@ -193,6 +194,7 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Failed to process response for token_id: {}", token_id);
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
-- 
2.43.0


From df40bf7e5da2c1b8075729081b2395b8ddac05ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 03/28] fix: honour the failure mode of an action however late
 it fails

The failure mode was only looked at while the action had not been requeued:
one waiting for body data, a task run on its reply, or a call nested in
onReply failed without any effect, letting the request through in deny mode
and leaving the failure out of the errors metric. Once the response is on its
way to the client a failure can not be turned into a local reply any more.
---
 .../kuadrant-filter/src/kuadrant/context.rs   | 11 +++++
 .../src/kuadrant/pipeline/blueprint.rs        | 19 +++++++--
 .../kuadrant/pipeline/tasks/failure_mode.rs   | 41 +++++++++++++++++--
 .../wasm-shim/src/filter/kuadrant_filter.rs   |  8 ++++
 4 files changed, 71 insertions(+), 8 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 2906266..0799d71 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -31,6 +31,7 @@ pub struct ReqRespCtx {
     pub values: ValueStore,
     pub barrier: Barrier,
     pub cel: CelScope,
+    response_released: bool,
 }
 
 impl ReqRespCtx {
@@ -47,9 +48,19 @@ impl ReqRespCtx {
             values: ValueStore::default(),
             barrier: Barrier::default(),
             cel: CelScope::default(),
+            response_released: false,
         }
     }
 
+    /// Whether the response headers were let through to the client already
+    pub fn response_released(&self) -> bool {
+        self.response_released
+    }
+
+    pub fn release_response(&mut self) {
+        self.response_released = true;
+    }
+
     pub fn with_request_data(mut self, request_data: Vec<RequestData>) -> Self {
         self.request_data = Some(request_data);
         self
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 5347717..0edd0a5 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -72,7 +72,10 @@ impl Action {
             } => {
                 let children: Vec<Box<dyn Task>> = on_reply
                     .iter()
-                    .filter_map(|a| a.to_core_task(ctx))
+                    .filter_map(|a| {
+                        a.to_core_task(ctx)
+                            .map(|task| a.honour_failure_mode(task))
+                    })
                     .collect();
 
                 match service {
@@ -169,6 +172,16 @@ impl Action {
         }
     }
 
+    fn honour_failure_mode(&self, task: Box<dyn Task>) -> Box<dyn Task> {
+        match &self.operation {
+            Operation::Grpc { service, .. } => {
+                let abort_on_failure = service.failure_mode() == configuration::FailureMode::Deny;
+                Box::new(FailureModeTask::new(task, abort_on_failure))
+            }
+            _ => task,
+        }
+    }
+
     pub fn collect_body_values(&self, request_data: &[RequestData]) -> Vec<String> {
         use std::collections::HashSet;
 
@@ -410,9 +423,7 @@ impl Blueprint {
                         }
 
                         if let Some(mut task) = action.to_core_task(ctx) {
-                            let abort_on_failure =
-                                service.failure_mode() == configuration::FailureMode::Deny;
-                            task = Box::new(FailureModeTask::new(task, abort_on_failure));
+                            task = action.honour_failure_mode(task);
 
                             if tracing_enabled {
                                 task = Box::new(TracingDecoratorTask::new(
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index ed8088e..921708e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -7,20 +7,40 @@ use crate::metrics::METRICS;
 pub struct FailureModeTask {
     task: Box<dyn Task>,
     abort: bool,
+    // whether the service has been called already
+    dispatched: bool,
 }
 
 impl FailureModeTask {
     pub fn new(task: Box<dyn Task>, abort: bool) -> Self {
-        Self { task, abort }
+        Self {
+            task,
+            abort,
+            dispatched: false,
+        }
     }
 }
 
 impl Task for FailureModeTask {
     fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
-        match self.task.apply(ctx) {
+        let FailureModeTask {
+            task,
+            abort,
+            dispatched,
+        } = *self;
+        match task.apply(ctx) {
             TaskOutcome::Failed => {
+                if ctx.response_released() {
+                    // Too late to replace the response by a local reply
+                    return if dispatched {
+                        METRICS.errors().increment();
+                        TaskOutcome::Done
+                    } else {
+                        TaskOutcome::Failed
+                    };
+                }
                 METRICS.errors().increment();
-                if self.abort {
+                if abort {
                     let span = tracing::Span::current();
                     span.record("otel.status_code", "ERROR");
                     TaskOutcome::Terminate(Box::new(SendReplyTask::default()))
@@ -32,9 +52,22 @@ impl Task for FailureModeTask {
                 token_id,
                 pending: Box::new(FailureModeTask {
                     task: pending,
-                    abort: self.abort,
+                    abort,
+                    dispatched: true,
                 }),
             },
+            TaskOutcome::Requeued(tasks) => TaskOutcome::Requeued(
+                tasks
+                    .into_iter()
+                    .map(|task| {
+                        Box::new(FailureModeTask {
+                            task,
+                            abort,
+                            dispatched,
+                        }) as Box<dyn Task>
+                    })
+                    .collect(),
+            ),
             outcome => outcome,
         }
     }
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 0c7d284..cc856a9 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -26,6 +26,12 @@ impl KuadrantFilter {
         }
     }
 
+    fn release_response(&mut self) {
+        if let Some(pipeline) = self.pipeline.as_mut() {
+            pipeline.ctx.release_response();
+        }
+    }
+
     fn should_pause(&self) -> bool {
         self.pipeline.as_ref().is_some_and(|p| p.requires_pause())
     }
@@ -68,6 +74,7 @@ impl Context for KuadrantFilter {
             if should_resume {
                 let result = if self.in_response_phase {
                     trace!("on_grpc_call_response: resume_http_response");
+                    self.release_response();
                     self.resume_http_response()
                 } else {
                     trace!("on_grpc_call_response: resume_http_request");
@@ -182,6 +189,7 @@ impl HttpContext for KuadrantFilter {
             Action::Pause
         } else {
             trace!("on_http_response_headers: continue");
+            self.release_response();
             Action::Continue
         }
     }
-- 
2.43.0


From 31bae1809dbb5ade8d08924d2577de755e64ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 04/28] fix: read each byte of a body exactly once

The parsers of body data assumed either that the host keeps the whole body in
its buffer or that it hands over one chunk at a time. It does both, depending
on whether the stream is paused, so bytes were skipped or parsed twice when a
body arrived in several chunks.
---
 .../kuadrant-filter/src/kuadrant/context.rs   | 19 ++++++++++++
 .../src/kuadrant/pipeline/tasks/store.rs      | 31 ++++++++++++-------
 .../pipeline/tasks/store/body_parser.rs       |  1 +
 .../kuadrant/pipeline/tasks/token_usage.rs    | 13 ++++++--
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 10 ++++++
 5 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 0799d71..a9a7f7c 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -472,6 +472,8 @@ impl Barrier {
 #[derive(Default)]
 pub struct BodyContext {
     buffer_size: usize,
+    // bytes which left the host's buffer already
+    forwarded: usize,
     end_of_stream: bool,
     values: HashMap<String, Value>,
 }
@@ -490,6 +492,23 @@ impl BodyContext {
         self.end_of_stream = end_of_stream;
     }
 
+    /// The host let go of the bytes buffered so far
+    pub fn release(&mut self) {
+        self.forwarded += self.buffer_size;
+        self.buffer_size = 0;
+    }
+
+    /// How many bytes of the body are past the first `consumed` ones
+    pub fn unread(&self, consumed: usize) -> usize {
+        (self.forwarded + self.buffer_size).saturating_sub(consumed)
+    }
+
+    /// Where in the host's buffer the bytes past the first `consumed` ones start, if they are
+    /// still there
+    pub fn offset_of(&self, consumed: usize) -> Option<usize> {
+        consumed.checked_sub(self.forwarded)
+    }
+
     pub fn set_value<K: Into<String>, V: Into<Value>>(&mut self, key: K, value: V) {
         self.values.insert(key.into(), value.into());
     }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 124d50d..cdd4334 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -24,7 +24,7 @@ enum BodySource {
 enum BodyParseState {
     NotNeeded,
     Pending(BodySource, Vec<String>),
-    Active(BodySource, Box<dyn BodyParser>),
+    Active(BodySource, Box<dyn BodyParser>, usize),
 }
 
 pub struct StoreTask {
@@ -133,7 +133,7 @@ impl Task for StoreTask {
             let result = Self::create_parser(ctx, source, fields);
             match result {
                 Ok(Some(parser)) => {
-                    self.body_parse_state = BodyParseState::Active(source, parser);
+                    self.body_parse_state = BodyParseState::Active(source, parser, 0);
                 }
                 Ok(None) => {
                     return TaskOutcome::Requeued(vec![self]);
@@ -145,25 +145,31 @@ impl Task for StoreTask {
             }
         }
 
-        if let BodyParseState::Active(source, ref mut parser) = self.body_parse_state {
+        if let BodyParseState::Active(source, ref mut parser, ref mut consumed) =
+            self.body_parse_state
+        {
             let body_ctx = match source {
                 BodySource::Request => &ctx.request_body,
                 BodySource::Response => &ctx.response_body,
             };
 
-            if body_ctx.buffer_size() == 0 && !body_ctx.is_end_of_stream() {
+            let Some(offset) = body_ctx.offset_of(*consumed) else {
+                error!(
+                    "The beginning of the body is gone already for '{}'",
+                    self.path
+                );
+                return TaskOutcome::Failed;
+            };
+
+            let bytes_to_read = body_ctx.unread(*consumed);
+            if bytes_to_read == 0 && !body_ctx.is_end_of_stream() {
                 return TaskOutcome::Requeued(vec![self]);
             }
 
-            if body_ctx.buffer_size() > parser.bytes_consumed() {
-                let bytes_to_read = body_ctx.buffer_size() - parser.bytes_consumed();
+            if bytes_to_read > 0 {
                 let chunk = match source {
-                    BodySource::Request => {
-                        ctx.get_http_request_body(parser.bytes_consumed(), bytes_to_read)
-                    }
-                    BodySource::Response => {
-                        ctx.get_http_response_body(parser.bytes_consumed(), bytes_to_read)
-                    }
+                    BodySource::Request => ctx.get_http_request_body(offset, bytes_to_read),
+                    BodySource::Response => ctx.get_http_response_body(offset, bytes_to_read),
                 };
 
                 let chunk_bytes = match chunk {
@@ -181,6 +187,7 @@ impl Task for StoreTask {
                     }
                 };
 
+                *consumed += chunk_bytes.len();
                 if let Err(e) = parser.feed(&chunk_bytes) {
                     error!("Failed to parse body for '{}': {e}", self.path);
                     return TaskOutcome::Failed;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
index bf07e54..cb48259 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
@@ -8,6 +8,7 @@ pub(super) trait BodyParser {
     fn finalize(&mut self) -> Result<(), AttributeError>;
     fn remaining_fields(&self) -> Vec<&String>;
     fn populate(&self, body_ctx: &mut BodyContext);
+    #[cfg_attr(not(test), allow(dead_code))]
     fn bytes_consumed(&self) -> usize;
 }
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 35ff962..2edf8bd 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -10,6 +10,7 @@ use tracing::{debug, error, warn};
 pub struct TokenUsageTask {
     strategy: Option<Box<dyn ExtractionStrategy>>,
     expected_response_fields: Vec<String>,
+    consumed: usize,
 }
 
 impl TokenUsageTask {
@@ -22,6 +23,7 @@ impl TokenUsageTask {
         Self {
             strategy: None,
             expected_response_fields,
+            consumed: 0,
         }
     }
 }
@@ -31,6 +33,7 @@ impl From<Box<Self>> for TokenUsageTask {
         Self {
             strategy: value.strategy,
             expected_response_fields: value.expected_response_fields,
+            consumed: value.consumed,
         }
     }
 }
@@ -64,9 +67,15 @@ impl Task for TokenUsageTask {
             }
         };
 
-        if ctx.response_body.buffer_size() > 0 {
-            match ctx.get_http_response_body(0, ctx.response_body.buffer_size()) {
+        let bytes_to_read = ctx.response_body.unread(task.consumed);
+        if bytes_to_read > 0 {
+            let Some(offset) = ctx.response_body.offset_of(task.consumed) else {
+                error!("The beginning of the response body is gone already");
+                return TaskOutcome::Failed;
+            };
+            match ctx.get_http_response_body(offset, bytes_to_read) {
                 Ok(AttributeState::Available(Some(bytes))) => {
+                    task.consumed += bytes.len();
                     strategy.feed_buffer(bytes);
                 }
                 Ok(AttributeState::Available(None)) => {
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index cc856a9..e970c21 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -26,8 +26,15 @@ impl KuadrantFilter {
         }
     }
 
+    fn release_request(&mut self) {
+        if let Some(pipeline) = self.pipeline.as_mut() {
+            pipeline.ctx.request_body.release();
+        }
+    }
+
     fn release_response(&mut self) {
         if let Some(pipeline) = self.pipeline.as_mut() {
+            pipeline.ctx.response_body.release();
             pipeline.ctx.release_response();
         }
     }
@@ -78,6 +85,7 @@ impl Context for KuadrantFilter {
                     self.resume_http_response()
                 } else {
                     trace!("on_grpc_call_response: resume_http_request");
+                    self.release_request();
                     self.resume_http_request()
                 };
 
@@ -166,6 +174,7 @@ impl HttpContext for KuadrantFilter {
             Action::Pause
         } else {
             trace!("on_http_request_body: continue");
+            self.release_request();
             Action::Continue
         }
     }
@@ -220,6 +229,7 @@ impl HttpContext for KuadrantFilter {
                 Action::Pause
             } else {
                 trace!("on_http_response_body: continue");
+                self.release_response();
                 Action::Continue
             }
         }
-- 
2.43.0


From f9181ac29a4908686d65f30424977a1ac39c3758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 05/28] fix: decode an event stream whose chunks split a
 character

A multi-byte character cut by a chunk boundary made the whole chunk get lost,
and the token usage with it.
---
 .../pipeline/tasks/store/sse_body_parser.rs   | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 3353b67..884e898 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -24,6 +24,8 @@ pub struct Event {
 #[derive(Default)]
 pub struct EventParser {
     buffer: String,
+    // the first bytes of a character whose last ones did not arrive yet
+    partial_char: Vec<u8>,
     event_builder: EventBuilder,
 }
 
@@ -32,8 +34,7 @@ impl EventParser {
         // taking advantage by the automatic deref coercion.
         // Because String implements Deref<Target=str>,
         // the compiler will automatically convert the string reference (i.e. &String) to a string slice - &str
-        self.buffer
-            .push_str(&String::from_utf8(chunk_bytes).map_err(|e| e.to_string())?);
+        self.decode(chunk_bytes);
 
         let mut events = Vec::default();
 
@@ -44,6 +45,29 @@ impl EventParser {
         Ok(events)
     }
 
+    // An event stream is always decoded as UTF-8, replacing what is invalid
+    fn decode(&mut self, chunk_bytes: Vec<u8>) {
+        let mut bytes = core::mem::take(&mut self.partial_char);
+        bytes.extend(chunk_bytes);
+
+        let mut rest = bytes.as_slice();
+        while let Err(e) = core::str::from_utf8(rest) {
+            let (valid, invalid) = rest.split_at(e.valid_up_to());
+            self.buffer.push_str(&String::from_utf8_lossy(valid));
+            match e.error_len() {
+                Some(len) => {
+                    self.buffer.push(char::REPLACEMENT_CHARACTER);
+                    rest = &invalid[len..];
+                }
+                None => {
+                    self.partial_char = invalid.to_vec();
+                    return;
+                }
+            }
+        }
+        self.buffer.push_str(&String::from_utf8_lossy(rest));
+    }
+
     fn parse_one_event(&mut self) -> Result<Option<Event>, String> {
         if self.buffer.is_empty() {
             return Ok(None);
-- 
2.43.0


From 3889f7edbf46d136cd46281324ea29122bbc39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 06/28] fix: hold the end of a response for as long as calls
 are in flight

The end of the response body was held back whenever tasks were left, even when
no call was in flight which could ever release it, and was let through by the
first response to come in even when further calls were still in flight.
---
 .../src/kuadrant/pipeline/executor.rs         |  5 +++++
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 21 ++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 3cf0d5a..a8d031d 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -212,6 +212,11 @@ impl Pipeline {
         self.eval()
     }
 
+    /// Whether there are calls left whose response has yet to come in
+    pub fn awaits_responses(&self) -> bool {
+        self.deferred_tasks.is_empty().not()
+    }
+
     pub fn requires_pause(&self) -> bool {
         self.ctx.barrier.is_tripped()
     }
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index e970c21..63b5a50 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -12,7 +12,7 @@ pub struct KuadrantFilter {
     factory: Arc<PipelineFactory>,
     pipeline: Option<Pipeline>,
     in_response_phase: bool,
-    force_resume: bool,
+    response_ended: bool,
 }
 
 impl KuadrantFilter {
@@ -22,7 +22,7 @@ impl KuadrantFilter {
             factory,
             pipeline: None,
             in_response_phase: false,
-            force_resume: false,
+            response_ended: false,
         }
     }
 
@@ -43,6 +43,10 @@ impl KuadrantFilter {
         self.pipeline.as_ref().is_some_and(|p| p.requires_pause())
     }
 
+    fn awaits_responses(&self) -> bool {
+        self.pipeline.as_ref().is_some_and(|p| p.awaits_responses())
+    }
+
     #[allow(clippy::expect_used)]
     fn should_resume(&self) -> bool {
         let pipeline = self.pipeline.as_ref().expect("pipeline must be present");
@@ -74,11 +78,14 @@ impl Context for KuadrantFilter {
                         self.context_id,
                         should_resume
                     );
-                    should_resume || self.force_resume || self.in_response_phase
+                    should_resume || self.in_response_phase
                 }
             };
 
-            if should_resume {
+            // the end of the response is held back until the last call is answered
+            let hold_end = self.response_ended && self.awaits_responses();
+
+            if should_resume && hold_end.not() {
                 let result = if self.in_response_phase {
                     trace!("on_grpc_call_response: resume_http_response");
                     self.release_response();
@@ -205,6 +212,7 @@ impl HttpContext for KuadrantFilter {
 
     fn on_http_response_body(&mut self, buffer_size: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_body", self.context_id);
+        self.response_ended = end_of_stream;
         if let Some(mut pipeline) = self.pipeline.take() {
             pipeline
                 .ctx
@@ -223,9 +231,8 @@ impl HttpContext for KuadrantFilter {
             trace!("on_http_response_body: pause");
             Action::Pause
         } else {
-            if self.pipeline.is_some() && end_of_stream {
-                trace!("on_http_response_body: pipeline is some, pause");
-                self.force_resume = true;
+            if self.response_ended && self.awaits_responses() {
+                trace!("on_http_response_body: calls in flight, pause");
                 Action::Pause
             } else {
                 trace!("on_http_response_body: continue");
-- 
2.43.0


From 488fad02e3cbaf3d8fa20704eb49e752480cd59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 07/28] fix: tell the end of a message without a body

No body callback follows headers which end the stream, so whatever depends on
the body of such a message stayed pending for good: a guard was skipped, or
the report of a response never went out.
---
 crates/wasm-shim/src/filter/kuadrant_filter.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 63b5a50..0227beb 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -110,13 +110,14 @@ impl Context for KuadrantFilter {
 }
 
 impl HttpContext for KuadrantFilter {
-    fn on_http_request_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
+    fn on_http_request_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_request_headers", self.context_id);
 
         #[cfg(feature = "debug-host-behaviour")]
         kuadrant_filter::data::debug_all_well_known_attributes(&crate::wasm_host::ProxyWasmHost);
 
-        let ctx = ReqRespCtx::new(Arc::new(crate::wasm_host::ProxyWasmHost));
+        let mut ctx = ReqRespCtx::new(Arc::new(crate::wasm_host::ProxyWasmHost));
+        ctx.request_body.set_buffer_size(0, end_of_stream);
 
         match self.factory.build(ctx) {
             Ok(Some(pipeline)) => {
@@ -186,11 +187,13 @@ impl HttpContext for KuadrantFilter {
         }
     }
 
-    fn on_http_response_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
+    fn on_http_response_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_headers", self.context_id);
         METRICS.allowed().increment();
         self.in_response_phase = true;
-        if let Some(pipeline) = self.pipeline.take() {
+        self.response_ended = end_of_stream;
+        if let Some(mut pipeline) = self.pipeline.take() {
+            pipeline.ctx.response_body.set_buffer_size(0, end_of_stream);
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
                     self.pipeline = Some(*p);
@@ -203,6 +206,9 @@ impl HttpContext for KuadrantFilter {
         if self.should_pause() {
             trace!("on_http_response_headers: pause");
             Action::Pause
+        } else if self.response_ended && self.awaits_responses() {
+            trace!("on_http_response_headers: calls in flight, pause");
+            Action::Pause
         } else {
             trace!("on_http_response_headers: continue");
             self.release_response();
-- 
2.43.0


From c96f3be1ded3bdefe0d41e768b475b120f5d4fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 08/28] fix: resume a request paused while its response comes
 in

When the upstream starts to respond before it got the whole request, a guard
waiting for the request body pauses both directions, but only the response was
resumed: the rest of the request never reached the upstream.
---
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 0227beb..d07d18b 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -13,6 +13,7 @@ pub struct KuadrantFilter {
     pipeline: Option<Pipeline>,
     in_response_phase: bool,
     response_ended: bool,
+    request_paused: bool,
 }
 
 impl KuadrantFilter {
@@ -23,10 +24,12 @@ impl KuadrantFilter {
             pipeline: None,
             in_response_phase: false,
             response_ended: false,
+            request_paused: false,
         }
     }
 
     fn release_request(&mut self) {
+        self.request_paused = false;
         if let Some(pipeline) = self.pipeline.as_mut() {
             pipeline.ctx.request_body.release();
         }
@@ -66,12 +69,15 @@ impl Context for KuadrantFilter {
             self.context_id, token_id, status_code
         );
         if let Some(pipeline) = self.pipeline.take() {
+            let terminated;
             let should_resume = match pipeline.digest(token_id, status_code, response_size) {
                 PipelineState::InProgress(p) => {
+                    terminated = p.is_terminated();
                     self.pipeline = Some(*p);
                     self.should_resume()
                 }
                 PipelineState::Completed { should_resume } => {
+                    terminated = should_resume.not();
                     self.pipeline = None;
                     trace!(
                         "#{} PipelineState::Completed: should_resume={}",
@@ -82,6 +88,22 @@ impl Context for KuadrantFilter {
                 }
             };
 
+            // the upstream may have responded before it got all of the request
+            if self.in_response_phase
+                && self.request_paused
+                && terminated.not()
+                && self.should_pause().not()
+            {
+                trace!("on_grpc_call_response: resume_http_request, early response");
+                self.release_request();
+                if let Err(e) = self.resume_http_request() {
+                    error!(
+                        "#{} failed to resume filter processing: {:?}",
+                        self.context_id, e
+                    );
+                }
+            }
+
             // the end of the response is held back until the last call is answered
             let hold_end = self.response_ended && self.awaits_responses();
 
@@ -133,6 +155,7 @@ impl HttpContext for KuadrantFilter {
                 }
                 if self.should_pause() {
                     trace!("on_http_request_headers: pause");
+                    self.request_paused = true;
                     Action::Pause
                 } else {
                     trace!("on_http_request_headers: continue");
@@ -179,6 +202,7 @@ impl HttpContext for KuadrantFilter {
         }
         if self.should_pause() {
             trace!("on_http_request_body: pause");
+            self.request_paused = true;
             Action::Pause
         } else {
             trace!("on_http_request_body: continue");
-- 
2.43.0


From 5850d159e4ea084e7dcfc5c246f87accb8779abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 09/28] fix: take trailers for the end of the body they follow

With trailers, no body callback tells the end of the stream: what depends on
the body stayed pending, so that for instance the token usage of a response
with trailers was never reported.
---
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index d07d18b..a1d44e0 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -271,4 +271,23 @@ impl HttpContext for KuadrantFilter {
             }
         }
     }
+
+    fn on_http_request_trailers(&mut self, _num_trailers: usize) -> Action {
+        debug!("#{} on_http_request_trailers", self.context_id);
+        // no more body is going to come in, but none of it did end the stream
+        let buffer_size = self
+            .pipeline
+            .as_ref()
+            .map_or(0, |p| p.ctx.request_body.buffer_size());
+        self.on_http_request_body(buffer_size, true)
+    }
+
+    fn on_http_response_trailers(&mut self, _num_trailers: usize) -> Action {
+        debug!("#{} on_http_response_trailers", self.context_id);
+        let buffer_size = self
+            .pipeline
+            .as_ref()
+            .map_or(0, |p| p.ctx.response_body.buffer_size());
+        self.on_http_response_body(buffer_size, true)
+    }
 }
-- 
2.43.0


From e8a6ccc647f30e7083ab4ee0184303d10bdf30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 10/28] fix: do not count a local reply as an allowed request

The response callbacks are run for the local reply of a denied request as
well, which was counted as both denied and allowed.
---
 crates/wasm-shim/src/filter/kuadrant_filter.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index a1d44e0..c7d7c40 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -14,6 +14,7 @@ pub struct KuadrantFilter {
     in_response_phase: bool,
     response_ended: bool,
     request_paused: bool,
+    local_reply: bool,
 }
 
 impl KuadrantFilter {
@@ -25,6 +26,7 @@ impl KuadrantFilter {
             in_response_phase: false,
             response_ended: false,
             request_paused: false,
+            local_reply: false,
         }
     }
 
@@ -88,6 +90,8 @@ impl Context for KuadrantFilter {
                 }
             };
 
+            self.local_reply |= terminated;
+
             // the upstream may have responded before it got all of the request
             if self.in_response_phase
                 && self.request_paused
@@ -147,9 +151,11 @@ impl HttpContext for KuadrantFilter {
                 METRICS.hits().increment();
                 match pipeline.eval() {
                     PipelineState::InProgress(p) => {
+                        self.local_reply = p.is_terminated();
                         self.pipeline = Some(*p);
                     }
-                    PipelineState::Completed { .. } => {
+                    PipelineState::Completed { should_resume } => {
+                        self.local_reply = should_resume.not();
                         self.pipeline = None;
                     }
                 }
@@ -170,6 +176,7 @@ impl HttpContext for KuadrantFilter {
             Err(e) => {
                 error!("#{} failed to build pipeline: {:?}", self.context_id, e);
                 METRICS.errors().increment();
+                self.local_reply = true;
                 #[allow(clippy::panic)]
                 hostcalls::send_http_response(500, Default::default(), Some(b"Internal Server Error.\n"))
                     .unwrap_or_else(|err| {
@@ -193,9 +200,11 @@ impl HttpContext for KuadrantFilter {
                 .set_buffer_size(buffer_size, end_of_stream);
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
+                    self.local_reply |= p.is_terminated();
                     self.pipeline = Some(*p);
                 }
-                PipelineState::Completed { .. } => {
+                PipelineState::Completed { should_resume } => {
+                    self.local_reply |= should_resume.not();
                     self.pipeline = None;
                 }
             }
@@ -213,7 +222,9 @@ impl HttpContext for KuadrantFilter {
 
     fn on_http_response_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_headers", self.context_id);
-        METRICS.allowed().increment();
+        if self.local_reply.not() {
+            METRICS.allowed().increment();
+        }
         self.in_response_phase = true;
         self.response_ended = end_of_stream;
         if let Some(mut pipeline) = self.pipeline.take() {
-- 
2.43.0


From b75bb32477430f8d012f819d6e9e192054dc4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 11/28] fix: keep the spans of concurrent requests apart

The span of a request stayed entered from the moment its pipeline was built
until its traces were exported. As requests are interleaved, spans of one ended
up as children of another one's, whose trace was propagated to the services.
---
 .../kuadrant-filter/src/kuadrant/context.rs   | 21 +++++++++++++------
 .../src/kuadrant/pipeline/executor.rs         |  3 +++
 .../kuadrant/pipeline/tasks/export_traces.rs  |  2 +-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index a9a7f7c..566963e 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -79,7 +79,7 @@ impl ReqRespCtx {
         }
     }
 
-    pub fn enter_request_span(&mut self) {
+    pub fn start_request_span(&mut self) {
         let span = tracing::info_span!(
             "kuadrant_filter",
             action_set = tracing::field::Empty,
@@ -97,12 +97,21 @@ impl ReqRespCtx {
             if let Some(hostname) = &self.tracing.hostname {
                 span.record("hostname", hostname.as_str());
             }
-            self.tracing.request_span_guard = Some(span.entered());
+            self.tracing.request_span = Some(span);
         }
     }
 
     pub fn end_request_span(&mut self) {
-        std::mem::drop(self.tracing.request_span_guard.take());
+        std::mem::drop(self.tracing.request_span.take());
+    }
+
+    /// The span to be entered while working on this request: requests are interleaved, so none of
+    /// them may stay the current one in between callbacks
+    pub fn request_span(&self) -> tracing::Span {
+        self.tracing
+            .request_span
+            .clone()
+            .unwrap_or_else(tracing::Span::none)
     }
 
     pub fn set_action_set_name(&mut self, name: String) {
@@ -354,7 +363,7 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        let context = if self.tracing.request_span_guard.is_some() {
+        let context = if self.tracing.request_span.is_some() {
             &tracing::Span::current().context()
         } else {
             &self.tracing.otel_context
@@ -422,7 +431,7 @@ impl Tracker {
 
 struct TracingContext {
     otel_context: opentelemetry::Context,
-    request_span_guard: Option<tracing::span::EnteredSpan>,
+    request_span: Option<tracing::Span>,
     action_set_name: Option<String>,
     hostname: Option<String>,
 }
@@ -431,7 +440,7 @@ impl Default for TracingContext {
     fn default() -> Self {
         Self {
             otel_context: opentelemetry::Context::new(),
-            request_span_guard: None,
+            request_span: None,
             action_set_name: None,
             hostname: None,
         }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index a8d031d..4a44c5d 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -106,6 +106,7 @@ impl Pipeline {
     }
 
     fn process_tasks(&mut self, tasks: Vec<Box<dyn Task>>) -> ProcessOutcome {
+        let _span = self.ctx.request_span().entered();
         for task in tasks {
             if task
                 .dependencies()
@@ -176,6 +177,7 @@ impl Pipeline {
                 Err(err) => error!("Failed to set gRPC response data: {}", err),
             };
             let task_id = pending.id().to_string();
+            let span = self.ctx.request_span().entered();
             match pending.apply(&mut self.ctx) {
                 TaskOutcome::Done => {
                     self.completed_tasks.insert(task_id);
@@ -200,6 +202,7 @@ impl Pipeline {
                     terminal_task.apply(&mut self.ctx);
                     self.task_queue.clear();
                     self.terminated = true;
+                    std::mem::drop(span);
                     self.execute_teardown();
 
                     return self.eval();
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
index e88cc88..5dd10a4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
@@ -10,7 +10,7 @@ pub struct ExportTracesTask {
 
 impl ExportTracesTask {
     pub fn new(ctx: &mut ReqRespCtx, service: Arc<TracingService>) -> Self {
-        ctx.enter_request_span();
+        ctx.start_request_span();
         Self { service }
     }
 }
-- 
2.43.0


From 7cfc3927cc6f7a533e99b77974b80efba6744a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 12/28] fix: propagate the trace context when spans are not
 exported

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 566963e..3544ba1 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -1,4 +1,5 @@
 use cel::{Context, Env, Value};
+use opentelemetry::trace::TraceContextExt;
 use std::cell::OnceCell;
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap, HashSet};
@@ -363,8 +364,12 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        let context = if self.tracing.request_span.is_some() {
-            &tracing::Span::current().context()
+        // The current span carries no context unless it is exported, which the tracing level decides
+        let span_context = tracing::Span::current().context();
+        let context = if self.tracing.request_span.is_some()
+            && span_context.span().span_context().is_valid()
+        {
+            &span_context
         } else {
             &self.tracing.otel_context
         };
-- 
2.43.0


From 4fc8b81378a57e596189c19abc5cdb4ee737c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 13/28] fix: skip a store whose predicate is false however its
 body arrives

---
 .../src/kuadrant/pipeline/tasks/store.rs               | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index cdd4334..461bf4a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -129,6 +129,16 @@ impl Task for StoreTask {
     }
 
     fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        if !matches!(self.body_parse_state, BodyParseState::NotNeeded) {
+            // Nothing to store means nothing to look for in the body, however it arrives
+            let mut cel_ctx = ctx.cel.new_ctx(&*self);
+            if let Some(ref predicate) = self.predicate {
+                if let Ok(AttributeState::Available(false)) = predicate.test(ctx, &mut cel_ctx) {
+                    return TaskOutcome::Done;
+                }
+            }
+        }
+
         if let BodyParseState::Pending(source, ref fields) = self.body_parse_state {
             let result = Self::create_parser(ctx, source, fields);
             match result {
-- 
2.43.0


From 7f56af191eb9e34ffcbb7778fb3de6816aa84b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 14/28] fix: quote the request id put into the response header
 expression

---
 crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 0edd0a5..2f2e711 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -100,10 +100,12 @@ impl Action {
                         ctx.set_public_tracker_id(var.clone());
                         #[allow(clippy::expect_used)]
                         let predicate = Predicate::new("true").expect("Needs to be valid!");
+                        // The id comes from the client: quote it, a JSON string is a CEL string
+                        let header = serde_json::Value::from(var.as_str());
+                        let request_id = serde_json::Value::from(ctx.request_id());
                         #[allow(clippy::expect_used)]
-                        let headers_expr =
-                            Expression::new(&format!("[['{var}', '{}']]", ctx.request_id()))
-                                .expect("Needs to be valid CEL!");
+                        let headers_expr = Expression::new(&format!("[[{header}, {request_id}]]"))
+                            .expect("Needs to be valid CEL!");
                         Some(Box::new(ModifyHeadersTask::new(
                             self.id.clone(),
                             predicate,
-- 
2.43.0


From 6027d40afa24429169f8c5393ebac333d070019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 15/28] fix: take the client address out of an IPv6 source
 address

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 3544ba1..2dd3999 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -258,8 +258,13 @@ impl ReqRespCtx {
         match self.backend.get_attribute(&"source.address".into()) {
             Ok(Some(host_vec)) => match String::from_utf8(host_vec) {
                 Ok(source_address) => {
-                    let split_address = source_address.split(':').collect::<Vec<_>>();
-                    Ok(Some(split_address[0].as_bytes().to_vec()))
+                    // IPv6 addresses come as `[address]:port`
+                    let address = source_address
+                        .strip_prefix('[')
+                        .and_then(|rest| rest.split_once(']'))
+                        .or_else(|| source_address.split_once(':'))
+                        .map_or(source_address.as_str(), |(address, _)| address);
+                    Ok(Some(address.as_bytes().to_vec()))
                 }
                 Err(_) => Err(AttributeError::Parse(
                     "source.address not valid UTF-8".to_string(),
-- 
2.43.0


From 3d278dce64da70083688733250ecd4e3c18dcfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 16/28] fix: make connection attributes available to
 expressions

---
 crates/kuadrant-filter/src/data/cel.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index e5822cc..5494aa5 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -251,6 +251,11 @@ impl Expression {
             cel_ctx.add_variable_from_value(binding, map.get(&key).cloned().unwrap_or(Value::Null));
         }
 
+        let connection_key: Key = "connection".into();
+        if let Some(value) = map.get(&connection_key) {
+            cel_ctx.add_variable_from_value("connection", value.clone());
+        }
+
         for (key, value) in map.iter() {
             if let Key::String(name) = key {
                 if *key != request_key && !is_host_property_root(name) {
-- 
2.43.0


From 9a4117b0648bd6f378a2583bff949f6e88a6615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 17/28] fix: keep gRPC request attributes available on the
 response path

---
 crates/kuadrant-filter/src/data/cel.rs         |  5 ++++-
 crates/kuadrant-filter/src/kuadrant/context.rs | 10 +++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 5494aa5..b445de7 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -214,7 +214,7 @@ impl Expression {
         }
 
         // Eagerly cache host-resolvable attributes used by this expression
-        let paths: Vec<Path> = self
+        let mut paths: Vec<Path> = self
             .attributes
             .iter()
             .filter(|attr| {
@@ -225,6 +225,9 @@ impl Expression {
             })
             .map(|attr| attr.path.clone())
             .collect();
+        if self.needs_grpc {
+            paths.extend(["request.headers".into(), "request.url_path".into()]);
+        }
         req_ctx.ensure_attributes(&paths);
 
         let Map { map } = match self.build_data_map(req_ctx)? {
diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 2dd3999..b15067e 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -151,11 +151,11 @@ impl ReqRespCtx {
     }
 
     pub fn get_request_header(&self, key: &str) -> Option<String> {
-        match self
-            .backend
-            .get_attribute_map_value(MapType::HttpRequestHeaders, key)
-        {
-            Ok(value) => value,
+        match self.get_attribute_ref::<Headers>(&"request.headers".into()) {
+            Ok(AttributeState::Available(headers)) => {
+                headers.and_then(|headers| headers.get(key).map(str::to_string))
+            }
+            Ok(AttributeState::Pending) => None,
             Err(e) => {
                 warn!("failed to get request header '{key}': {e}");
                 None
-- 
2.43.0


From 35564c8f08ec161e922e09a40ff230e7252ba192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 18/28] fix: keep a request in its own trace when span export
 is turned on meanwhile

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index b15067e..e505d5f 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -369,10 +369,12 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        // The current span carries no context unless it is exported, which the tracing level decides
-        let span_context = tracing::Span::current().context();
-        let context = if self.tracing.request_span.is_some()
-            && span_context.span().span_context().is_valid()
+        // A span carries no context unless it is exported, which the tracing level decides. That may
+        // change during the request: spans exported under one that is not belong to another trace
+        let exported = |span: &tracing::Span| span.context().span().span_context().is_valid();
+        let span = tracing::Span::current();
+        let span_context = span.context();
+        let context = if self.tracing.request_span.as_ref().is_some_and(exported) && exported(&span)
         {
             &span_context
         } else {
-- 
2.43.0


From b8f60ff7aea5d87c25f46c37716f6d9c40cf51e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 19/28] fix: take header values that are not UTF-8 instead of
 trapping

---
 crates/wasm-shim/src/wasm_host.rs | 45 +++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/crates/wasm-shim/src/wasm_host.rs b/crates/wasm-shim/src/wasm_host.rs
index 78750f1..98617d5 100644
--- a/crates/wasm-shim/src/wasm_host.rs
+++ b/crates/wasm-shim/src/wasm_host.rs
@@ -35,6 +35,14 @@ impl MetricsBackend for WasmMetricsBackend {
     }
 }
 
+/// Stands for what is not text in a header value.
+const NOT_TEXT: char = char::REPLACEMENT_CHARACTER;
+
+/// Header values are bytes, and are not always text.
+fn to_text(value: &[u8]) -> String {
+    String::from_utf8_lossy(value).into_owned()
+}
+
 fn to_proxy_map_type(map_type: MapType) -> proxy_wasm::types::MapType {
     match map_type {
         MapType::HttpRequestHeaders => proxy_wasm::types::MapType::HttpRequestHeaders,
@@ -61,12 +69,15 @@ impl AttributeResolver for ProxyWasmHost {
         map_type: MapType,
     ) -> Result<Vec<(String, String)>, AttributeError> {
         debug!("Getting map: `{:?}`", map_type);
-        match hostcalls::get_map(to_proxy_map_type(map_type)) {
+        match hostcalls::get_map_bytes(to_proxy_map_type(map_type)) {
             Ok(map) if map.is_empty() => Err(AttributeError::NotAvailable(format!(
                 "Map `{:?}` not available in current phase",
                 map_type
             ))),
-            Ok(map) => Ok(map),
+            Ok(map) => Ok(map
+                .into_iter()
+                .map(|(name, value)| (name, to_text(&value)))
+                .collect()),
             Err(err) => Err(AttributeError::Retrieval(format!(
                 "Error getting host map: {err:?}"
             ))),
@@ -79,8 +90,8 @@ impl AttributeResolver for ProxyWasmHost {
         key: &str,
     ) -> Result<Option<String>, AttributeError> {
         debug!("Getting map value: `{:?}[{key}]`", map_type);
-        match hostcalls::get_map_value(to_proxy_map_type(map_type), key) {
-            Ok(value) => Ok(value),
+        match hostcalls::get_map_value_bytes(to_proxy_map_type(map_type), key) {
+            Ok(value) => Ok(value.map(|value| to_text(&value))),
             Err(Status::BadArgument) => Err(AttributeError::NotAvailable(format!(
                 "Map `{map_type:?}` not available in current phase",
             ))),
@@ -106,7 +117,31 @@ impl AttributeResolver for ProxyWasmHost {
         map_type: MapType,
         value: Vec<(&str, &str)>,
     ) -> Result<(), AttributeError> {
-        match hostcalls::set_map(to_proxy_map_type(map_type), value) {
+        let map_type_in_host = to_proxy_map_type(map_type);
+        let mut untouched = if value.iter().any(|(_, v)| v.contains(NOT_TEXT)) {
+            hostcalls::get_map_bytes(map_type_in_host).unwrap_or_default()
+        } else {
+            Vec::new()
+        };
+        untouched.retain(|(_, v)| std::str::from_utf8(v).is_err());
+        let values: Vec<Vec<u8>> = value
+            .iter()
+            .map(|(name, text)| {
+                let original = untouched
+                    .iter()
+                    .position(|(n, v)| n == name && to_text(v) == *text);
+                match original {
+                    Some(index) => untouched.remove(index).1,
+                    None => text.as_bytes().to_vec(),
+                }
+            })
+            .collect();
+        let value = value
+            .iter()
+            .zip(&values)
+            .map(|((name, _), value)| (*name, value.as_slice()))
+            .collect();
+        match hostcalls::set_map_bytes(map_type_in_host, value) {
             Ok(_) => Ok(()),
             Err(proxy_wasm::types::Status::BadArgument) => Err(AttributeError::NotAvailable(
                 format!("Map `{:?}` not available in current phase", map_type),
-- 
2.43.0


From 30b655555376bdbea26bcdefbcd9f5600cea62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:59 +0000
Subject: [PATCH 20/28] fix: refuse values out of the range of a 32-bit message
 field

---
 .../src/services/dynamic/converters.rs        | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 344bf8f..cd40042 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -59,6 +59,22 @@ fn is_map_field(field: &FieldDescriptor) -> bool {
     }
 }
 
+fn int32_value(value: i64, field_name: &str) -> Result<i32, ConversionError> {
+    i32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+        field: field_name.to_string(),
+        expected: "int value within int32 range".to_string(),
+        got: format!("{}", value),
+    })
+}
+
+fn uint32_value(value: u64, field_name: &str) -> Result<u32, ConversionError> {
+    u32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+        field: field_name.to_string(),
+        expected: "uint value within uint32 range".to_string(),
+        got: format!("{}", value),
+    })
+}
+
 /// Converts protobuf MessageDescriptors to CEL StructDefs
 pub struct DescriptorConverter;
 
@@ -486,7 +502,7 @@ impl MessageConverter {
                 let value = *i.inner();
                 match key_field.kind() {
                     ProtoKind::Int32 | ProtoKind::Sint32 | ProtoKind::Sfixed32 => {
-                        Ok(MapKey::I32(value as i32))
+                        Ok(MapKey::I32(int32_value(value, key_field.name())?))
                     }
                     ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                         Ok(MapKey::I64(value))
@@ -501,7 +517,9 @@ impl MessageConverter {
             CelMapKey::UInt(u) => {
                 let value = *u.inner();
                 match key_field.kind() {
-                    ProtoKind::Uint32 | ProtoKind::Fixed32 => Ok(MapKey::U32(value as u32)),
+                    ProtoKind::Uint32 | ProtoKind::Fixed32 => {
+                        Ok(MapKey::U32(uint32_value(value, key_field.name())?))
+                    }
                     ProtoKind::Uint64 | ProtoKind::Fixed64 => Ok(MapKey::U64(value)),
                     _ => Err(ConversionError::TypeMismatch {
                         field: key_field.name().to_string(),
@@ -539,7 +557,7 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::I32(*i.inner() as i32))
+                Ok(ProtoValue::I32(int32_value(*i.inner(), field_name)?))
             }
             ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                 let i = cel_val.downcast_ref::<CelInt>().ok_or_else(|| {
@@ -559,7 +577,7 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::U32(*u.inner() as u32))
+                Ok(ProtoValue::U32(uint32_value(*u.inner(), field_name)?))
             }
             ProtoKind::Uint64 | ProtoKind::Fixed64 => {
                 let u = cel_val.downcast_ref::<CelUInt>().ok_or_else(|| {
-- 
2.43.0


From 1029bfce9017eec06442ee1c034ac269ca4d5ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:59 +0000
Subject: [PATCH 21/28] fix: decode the strings of a JSON body, and leave them
 strings

---
 .../pipeline/tasks/store/json_body_parser.rs  | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 748a78b..9b40b8f 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -35,14 +35,23 @@ impl JsonBodyParser {
                 .unwrap_or_else(|e| e.into_inner())
                 .insert(field_name.clone(), Vec::new());
 
-            builder = match builder.register(field, move |bytes, _is_complete| {
-                field_matched
+            builder = match builder.register(field, move |bytes, is_complete| {
+                let is_first = field_matched
                     .lock()
                     .unwrap_or_else(|e| e.into_inner())
                     .insert(field_name.clone());
+                // What completes anything but a string is never empty
+                let is_string = !is_complete || bytes.is_empty();
                 let mut bufs = field_buffers.lock().unwrap_or_else(|e| e.into_inner());
                 if let Some(buf) = bufs.get_mut(&field_name) {
+                    // The parser leaves the quotes out: keep strings apart from the rest
+                    if is_string && is_first {
+                        buf.push(b'"');
+                    }
                     buf.extend_from_slice(bytes);
+                    if is_string && is_complete {
+                        buf.push(b'"');
+                    }
                 } else {
                     error!("Buffer not found for field {}", field_name);
                 }
@@ -76,7 +85,16 @@ impl JsonBodyParser {
                 let raw_value = std::str::from_utf8(raw_bytes).map_err(|e| {
                     AttributeError::Parse(format!("Body field '{field}' is not valid UTF-8: {e}"))
                 })?;
-                let value = parse_json_scalar(raw_value);
+                let value = if raw_value.starts_with('"') {
+                    let text: String = serde_json::from_str(raw_value).map_err(|e| {
+                        AttributeError::Parse(format!(
+                            "Body field '{field}' is not a valid JSON string: {e}"
+                        ))
+                    })?;
+                    Value::String(Arc::new(text))
+                } else {
+                    parse_json_scalar(raw_value)
+                };
                 self.extracted.insert(field.clone(), value);
             }
         }
-- 
2.43.0


From a96dc34627f3d89f2ef9ecf4d680add376c9f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:59 +0000
Subject: [PATCH 22/28] fix: accept line breaks and tabs anywhere between the
 tokens of a JSON body

---
 .../pipeline/tasks/store/json_body_parser.rs  | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 9b40b8f..4a88c2f 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -9,11 +9,38 @@ use super::body_parser::{parse_json_scalar, BodyParser};
 use crate::data::attribute::AttributeError;
 use crate::kuadrant::context::BodyContext;
 
+/// Line breaks and tabs between the tokens of a document, which `acutejson` refuses
+/// within the objects and arrays it skips.
+#[derive(Default)]
+struct Whitespace {
+    in_string: bool,
+    escaped: bool,
+}
+
+impl Whitespace {
+    /// The chunk, with spaces in their place
+    fn to_spaces(&mut self, chunk: &[u8]) -> Vec<u8> {
+        chunk.iter().map(|&byte| self.to_space(byte)).collect()
+    }
+
+    fn to_space(&mut self, byte: u8) -> u8 {
+        match byte {
+            _ if self.escaped => self.escaped = false,
+            b'\\' => self.escaped = self.in_string,
+            b'"' => self.in_string = !self.in_string,
+            b'\t' | b'\n' | b'\r' if !self.in_string => return b' ',
+            _ => {}
+        }
+        byte
+    }
+}
+
 pub(crate) struct JsonBodyParser {
     fields: Vec<String>,
     parser: Option<acutejson::Parser>,
     buffers: Arc<Mutex<HashMap<String, Vec<u8>>>>,
     matched: Arc<Mutex<HashSet<String>>>,
+    whitespace: Whitespace,
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
     complete: bool,
@@ -71,6 +98,7 @@ impl JsonBodyParser {
             parser: Some(builder.build()),
             buffers,
             matched,
+            whitespace: Whitespace::default(),
             extracted: HashMap::new(),
             bytes_consumed: 0,
             complete: false,
@@ -136,7 +164,7 @@ impl BodyParser for JsonBodyParser {
             None => return Err(AttributeError::Parse("Parser not initialized".to_string())),
         };
 
-        match parser.feed(chunk) {
+        match parser.feed(&self.whitespace.to_spaces(chunk)) {
             Ok(acutejson::Status::Done) => {
                 self.complete = true;
                 self.finalize_extracted()?;
-- 
2.43.0


From 351b73e0480ed0c0d3610d56775aa63247a7adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:59 +0000
Subject: [PATCH 23/28] fix: read event streams that start with a byte order
 mark or end with a bare CR

---
 .../pipeline/tasks/store/sse_body_parser.rs   | 35 +++++++++++++++++++
 .../kuadrant/pipeline/tasks/token_usage.rs    |  5 +++
 2 files changed, 40 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 884e898..69e162c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -9,6 +9,8 @@ use sse_line_parser::RawEventLine;
 
 mod sse_line_parser;
 
+const BYTE_ORDER_MARK: char = '\u{FEFF}';
+
 #[derive(Default, PartialEq, Debug)]
 pub struct Event {
     /// The event name if given
@@ -26,6 +28,8 @@ pub struct EventParser {
     buffer: String,
     // the first bytes of a character whose last ones did not arrive yet
     partial_char: Vec<u8>,
+    // whether anything was decoded yet
+    started: bool,
     event_builder: EventBuilder,
 }
 
@@ -36,6 +40,27 @@ impl EventParser {
         // the compiler will automatically convert the string reference (i.e. &String) to a string slice - &str
         self.decode(chunk_bytes);
 
+        if !self.started && !self.buffer.is_empty() {
+            self.started = true;
+            if self.buffer.starts_with(BYTE_ORDER_MARK) {
+                self.buffer.remove(0);
+            }
+        }
+
+        self.parse_events()
+    }
+
+    // The last events, when nothing is left to parse
+    pub(crate) fn finish(&mut self) -> Result<Vec<Event>, String> {
+        if self.buffer.ends_with('\r') {
+            // it waits for a line feed, that can't come anymore
+            self.buffer.push('\n');
+        }
+
+        self.parse_events()
+    }
+
+    fn parse_events(&mut self) -> Result<Vec<Event>, String> {
         let mut events = Vec::default();
 
         while let Some(event) = self.parse_one_event()? {
@@ -186,6 +211,16 @@ impl BodyParser for SseBodyParser {
 
     fn finalize(&mut self) -> Result<(), AttributeError> {
         self.complete = true;
+
+        let events = self
+            .event_parser
+            .finish()
+            .map_err(|e| AttributeError::Parse(format!("SSE parse error: {e}")))?;
+
+        for event in events {
+            self.push_event(event);
+        }
+
         let penultimate = match &self.last_two_events[1] {
             Some(event) => &event.data,
             None => return Ok(()),
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 2edf8bd..509aa2a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -174,6 +174,11 @@ impl ExtractionStrategy for SseStrategy {
 
     fn extract_property(&mut self, prop: &str) -> Option<Value> {
         if self.parsed_json.is_none() {
+            if let Ok(events) = self.event_parser.finish() {
+                for event in events {
+                    self.push_event(event);
+                }
+            }
             if let Some(event) = &self.last_two_events[1] {
                 if let Ok(json) = serde_json::from_str::<Value>(&event.data) {
                     self.parsed_json = Some(json);
-- 
2.43.0


From 918991df417b9fb0d971ba714b18eb2219b8ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 24/28] fix: header names are the same whatever their case

A policy setting X-Plan left the x-plan header a client had sent in place, and
what actions read afterwards was the client's.
---
 crates/kuadrant-filter/src/data/headers.rs                | 8 ++++----
 .../src/kuadrant/pipeline/tasks/headers.rs                | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/headers.rs b/crates/kuadrant-filter/src/data/headers.rs
index 53554ca..c958c61 100644
--- a/crates/kuadrant-filter/src/data/headers.rs
+++ b/crates/kuadrant-filter/src/data/headers.rs
@@ -14,18 +14,18 @@ impl Headers {
     }
 
     pub fn set(&mut self, key: String, value: String) {
-        self.0.retain(|(k, _)| k != &key);
+        self.remove(&key);
         self.0.push((key, value));
     }
 
     pub fn remove(&mut self, key: &str) {
-        self.0.retain(|(k, _)| k != key);
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
     }
 
     pub fn get_all(&self, key: &str) -> Vec<&str> {
         self.0
             .iter()
-            .filter(|(k, _)| k == key)
+            .filter(|(k, _)| k.eq_ignore_ascii_case(key))
             .map(|(_, v)| v.as_str())
             .collect()
     }
@@ -33,7 +33,7 @@ impl Headers {
     pub fn get(&self, key: &str) -> Option<&str> {
         self.0
             .iter()
-            .find(|(k, _)| k == key)
+            .find(|(k, _)| k.eq_ignore_ascii_case(key))
             .map(|(_, v)| v.as_str())
     }
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
index 2208fbc..feac96b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
@@ -106,7 +106,8 @@ impl Task for ModifyHeadersTask {
                     HeaderOperation::Set(headers) => {
                         debug!("Setting {} headers", headers.len());
                         for (key, value) in headers.clone().into_inner() {
-                            existing_headers.set(key, value);
+                            // as the host spells them
+                            existing_headers.set(key.to_ascii_lowercase(), value);
                         }
                     }
                     HeaderOperation::Remove(keys) => {
-- 
2.43.0


From 0091cd8056653305013b77c713f19e0d67797575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:21 +0000
Subject: [PATCH 25/28] fix: actions read the values of requestBodyJSON from
 the request body

Only stores looked into the body of the request: the predicate and the
message of any other action waited for values nobody supplied and the action
was skipped once the body was complete.
---
 .../kuadrant-filter/src/kuadrant/context.rs   |  8 +++
 .../src/kuadrant/pipeline/blueprint.rs        | 41 ++++++++++++-
 .../src/kuadrant/pipeline/tasks/dynamic.rs    | 18 +++---
 .../src/kuadrant/pipeline/tasks/fail.rs       |  8 +--
 .../src/kuadrant/pipeline/tasks/mod.rs        |  2 +
 .../kuadrant/pipeline/tasks/request_body.rs   | 59 +++++++++++++++++++
 .../src/kuadrant/pipeline/tasks/store.rs      |  4 +-
 .../pipeline/tasks/store/body_parser.rs       |  2 +-
 8 files changed, 122 insertions(+), 20 deletions(-)
 create mode 100644 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index e505d5f..59d4b12 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -62,6 +62,14 @@ impl ReqRespCtx {
         self.response_released = true;
     }
 
+    /// Whether one of these values is not in a body that has been seen to its end
+    pub fn lacks_body_values(&self, of_request: &[String], of_response: &[String]) -> bool {
+        let lacks = |body: &BodyContext, fields: &[String]| {
+            body.is_end_of_stream() && fields.iter().any(|f| body.get_value(f).is_none())
+        };
+        lacks(&self.request_body, of_request) || lacks(&self.response_body, of_response)
+    }
+
     pub fn with_request_data(mut self, request_data: Vec<RequestData>) -> Self {
         self.request_data = Some(request_data);
         self
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 2f2e711..5b0c846 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -5,15 +5,16 @@ use crate::configuration::{
 };
 use crate::data::{cel::Predicate, Expression};
 use crate::kuadrant::pipeline::tasks::{
-    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, Task,
-    TeardownAction, TokenUsageTask, TracingDecoratorTask,
+    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask,
+    RequestBodyTask, Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
 };
 use crate::kuadrant::ReqRespCtx;
 use crate::services::ServiceInstance;
 use cel::ParseErrors;
-use std::collections::HashMap;
+use std::collections::{BTreeSet, HashMap};
 use std::fmt::Display;
 use std::sync::Arc;
+use tracing::error;
 
 pub type RequestData = ((String, String), Expression);
 
@@ -184,6 +185,32 @@ impl Action {
         }
     }
 
+    /// What is looked for in the request body; stores find their values by themselves
+    fn request_body_values(&self) -> BTreeSet<String> {
+        let mut fields = BTreeSet::new();
+        if !matches!(self.operation, Operation::Store { .. }) {
+            fields.extend(self.predicate.request_body_values().iter().cloned());
+        }
+        match &self.operation {
+            Operation::Grpc {
+                message_builder,
+                on_reply,
+                ..
+            } => {
+                fields.extend(message_builder.request_body_values().iter().cloned());
+                fields.extend(on_reply.iter().flat_map(Action::request_body_values));
+            }
+            Operation::Deny { deny_with } => {
+                fields.extend(deny_with.request_body_values().iter().cloned());
+            }
+            Operation::Headers { headers, .. } => {
+                fields.extend(headers.request_body_values().iter().cloned());
+            }
+            Operation::Store { .. } | Operation::Fail { .. } => {}
+        }
+        fields
+    }
+
     pub fn collect_body_values(&self, request_data: &[RequestData]) -> Vec<String> {
         use std::collections::HashSet;
 
@@ -401,6 +428,14 @@ impl Blueprint {
         });
 
         for action in &self.actions {
+            let request_fields = action.request_body_values();
+            if !request_fields.is_empty() {
+                match RequestBodyTask::new(request_fields.into_iter().collect()) {
+                    Ok(task) => tasks.push(Box::new(task)),
+                    Err(e) => error!("Cannot look into the request body: {e}"),
+                }
+            }
+
             match &action.operation {
                 Operation::Grpc { service, label, .. } => match service {
                     ServiceInstance::Tracing(tracing_service) => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
index 13555e1..faa8b22 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
@@ -87,11 +87,10 @@ impl Task for DynamicTask {
         let mut cel_ctx = ctx.cel.new_ctx(&*self);
         match self.predicate.test(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return if (self.predicate.has_request_body_deps()
-                    && ctx.request_body.is_end_of_stream())
-                    || (self.predicate.has_response_body_deps()
-                        && ctx.response_body.is_end_of_stream())
-                {
+                return if ctx.lacks_body_values(
+                    self.predicate.request_body_values(),
+                    self.predicate.response_body_values(),
+                ) {
                     TaskOutcome::Failed
                 } else {
                     TaskOutcome::Requeued(vec![self])
@@ -118,11 +117,10 @@ impl Task for DynamicTask {
             let mut cel_ctx = ctx.cel.new_ctx(&*self);
             let cel_value = match self.message_builder.eval(ctx, &mut cel_ctx) {
                 Ok(AttributeState::Pending) => {
-                    return if (self.message_builder.has_request_body_deps()
-                        && ctx.request_body.is_end_of_stream())
-                        || (self.message_builder.has_response_body_deps()
-                            && ctx.response_body.is_end_of_stream())
-                    {
+                    return if ctx.lacks_body_values(
+                        self.message_builder.request_body_values(),
+                        self.message_builder.response_body_values(),
+                    ) {
                         TaskOutcome::Failed
                     } else {
                         TaskOutcome::Requeued(vec![self])
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
index 8d04c28..6cfaa2c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
@@ -43,10 +43,10 @@ impl Task for FailTask {
             }
             Ok(AttributeState::Available(false)) => TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                if (self.predicate.has_request_body_deps() && ctx.request_body.is_end_of_stream())
-                    || (self.predicate.has_response_body_deps()
-                        && ctx.response_body.is_end_of_stream())
-                {
+                if ctx.lacks_body_values(
+                    self.predicate.request_body_values(),
+                    self.predicate.response_body_values(),
+                ) {
                     TaskOutcome::Failed
                 } else {
                     TaskOutcome::Requeued(vec![self])
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 4a73471..15a002b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -3,6 +3,7 @@ mod export_traces;
 mod fail;
 mod failure_mode;
 mod headers;
+mod request_body;
 mod send_reply;
 mod store;
 mod token_usage;
@@ -13,6 +14,7 @@ pub use export_traces::ExportTracesTask;
 pub use fail::FailTask;
 pub use failure_mode::FailureModeTask;
 pub use headers::{HeadersType, ModifyHeadersTask};
+pub use request_body::RequestBodyTask;
 pub use send_reply::SendReplyTask;
 pub use store::StoreTask;
 pub use token_usage::TokenUsageTask;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs
new file mode 100644
index 0000000..92d7c41
--- /dev/null
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs
@@ -0,0 +1,59 @@
+use tracing::error;
+
+use super::store::{BodyParser, JsonBodyParser};
+use crate::data::attribute::{AttributeError, AttributeState};
+use crate::kuadrant::pipeline::tasks::{Task, TaskOutcome};
+use crate::kuadrant::ReqRespCtx;
+
+/// Takes the values an action looks for out of the body of the request
+pub struct RequestBodyTask {
+    parser: JsonBodyParser,
+    consumed: usize,
+}
+
+impl RequestBodyTask {
+    pub fn new(fields: Vec<String>) -> Result<Self, AttributeError> {
+        Ok(Self {
+            parser: JsonBodyParser::new(fields)?,
+            consumed: 0,
+        })
+    }
+
+    fn read(&mut self, ctx: &ReqRespCtx) -> Result<(), AttributeError> {
+        let bytes_to_read = ctx.request_body.unread(self.consumed);
+        if bytes_to_read > 0 {
+            let offset = ctx.request_body.offset_of(self.consumed).ok_or_else(|| {
+                AttributeError::Parse("Its beginning is gone already".to_string())
+            })?;
+            if let AttributeState::Available(Some(bytes)) =
+                ctx.get_http_request_body(offset, bytes_to_read)?
+            {
+                self.consumed += bytes.len();
+                self.parser.feed(&bytes)?;
+            }
+        }
+        if ctx.request_body.is_end_of_stream() {
+            self.parser.finalize()?;
+        }
+        Ok(())
+    }
+}
+
+impl Task for RequestBodyTask {
+    fn id(&self) -> &str {
+        "request_body"
+    }
+
+    fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        if let Err(e) = self.read(ctx) {
+            error!("Failed to read the request body: {e}");
+            return TaskOutcome::Failed;
+        }
+        self.parser.populate(&mut ctx.request_body);
+        if ctx.request_body.is_end_of_stream() || self.parser.remaining_fields().is_empty() {
+            TaskOutcome::Done
+        } else {
+            TaskOutcome::Requeued(vec![self])
+        }
+    }
+}
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 461bf4a..93455d8 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -2,8 +2,8 @@ mod body_parser;
 mod json_body_parser;
 pub(super) mod sse_body_parser;
 
-use body_parser::BodyParser;
-use json_body_parser::JsonBodyParser;
+pub(super) use body_parser::BodyParser;
+pub(super) use json_body_parser::JsonBodyParser;
 use sse_body_parser::SseBodyParser;
 use tracing::error;
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
index cb48259..1013e97 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
@@ -3,7 +3,7 @@ use cel::Value;
 use crate::data::attribute::AttributeError;
 use crate::kuadrant::context::BodyContext;
 
-pub(super) trait BodyParser {
+pub(crate) trait BodyParser {
     fn feed(&mut self, chunk: &[u8]) -> Result<(), AttributeError>;
     fn finalize(&mut self) -> Result<(), AttributeError>;
     fn remaining_fields(&self) -> Vec<&String>;
-- 
2.43.0


From 806ec76d8201b5a2bbc10b35620c4e96be2c8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:43 +0000
Subject: [PATCH 26/28] fix: a rejected configuration leaves tracing and log
 levels as they were

---
 crates/kuadrant-filter/src/tracing/mod.rs   |  4 ++++
 crates/wasm-shim/src/filter/root_context.rs | 25 ++++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/kuadrant-filter/src/tracing/mod.rs b/crates/kuadrant-filter/src/tracing/mod.rs
index 1f23bdc..ab76530 100644
--- a/crates/kuadrant-filter/src/tracing/mod.rs
+++ b/crates/kuadrant-filter/src/tracing/mod.rs
@@ -80,6 +80,10 @@ pub fn init_observability(use_tracing: bool, log_level: Option<&str>, initial_fi
     }
 }
 
+pub fn is_initialised() -> bool {
+    OTEL_FILTER_HANDLE.get().is_some()
+}
+
 pub fn set_log_level(filter: LevelFilter) {
     if let Some(log_handle) = LOG_FILTER_HANDLE.get() {
         if let Err(e) = log_handle.reload(filter) {
diff --git a/crates/wasm-shim/src/filter/root_context.rs b/crates/wasm-shim/src/filter/root_context.rs
index b2ae6e7..fcb5b74 100644
--- a/crates/wasm-shim/src/filter/root_context.rs
+++ b/crates/wasm-shim/src/filter/root_context.rs
@@ -143,14 +143,27 @@ impl RootContext for FilterRoot {
         match serde_json::from_slice::<PluginConfiguration>(&configuration) {
             Ok(config) => {
                 let use_tracing_exporter = config.observability.tracing.is_some();
-                kuadrant_filter::tracing::init_observability(
-                    use_tracing_exporter,
-                    config.observability.default_level.as_deref(),
-                    crate::wasm_host::current_log_filter(),
-                );
+                let default_level = config.observability.default_level.clone();
+                let log_filter = crate::wasm_host::current_log_filter();
+                let apply_observability = || {
+                    kuadrant_filter::tracing::init_observability(
+                        use_tracing_exporter,
+                        default_level.as_deref(),
+                        log_filter,
+                    )
+                };
+                if kuadrant_filter::tracing::is_initialised() {
+                    kuadrant_filter::tracing::set_log_level(log_filter);
+                } else {
+                    apply_observability();
+                }
 
                 info!("plugin config parsed: {:?}", config);
-                self.process_config(config)
+                let accepted = self.process_config(config);
+                if accepted {
+                    apply_observability();
+                }
+                accepted
             }
             Err(e) => {
                 log::error!("failed to parse plugin config: {}", e);
-- 
2.43.0


From 7169b6402b077dae8009dab84244ec9113e2952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:36 +0000
Subject: [PATCH 27/28] fix: an event stream is one in whatever case its
 content type is written

---
 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs     | 2 +-
 .../kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 93455d8..6e8c9e7 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -101,7 +101,7 @@ impl StoreTask {
                 let is_sse = match ctx.get_attribute_ref::<Headers>(&"response.headers".into()) {
                     Ok(AttributeState::Available(Some(headers))) => headers
                         .get("content-type")
-                        .is_some_and(|ct| ct.contains("text/event-stream")),
+                        .is_some_and(|ct| ct.to_ascii_lowercase().contains("text/event-stream")),
                     Ok(AttributeState::Available(None)) => false,
                     Ok(AttributeState::Pending) => return Ok(None),
                     Err(e) => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 509aa2a..8f0efd5 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -125,7 +125,7 @@ impl Task for TokenUsageTask {
 
 fn select_strategy(headers: &Headers) -> Box<dyn ExtractionStrategy> {
     if let Some(ct) = headers.get("content-type") {
-        if ct.contains("text/event-stream") {
+        if ct.to_ascii_lowercase().contains("text/event-stream") {
             Box::new(SseStrategy::new())
         } else {
             Box::new(JsonStrategy::new())
-- 
2.43.0


From 467c042028df5ce9a5314d43e6398a5035d7a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:43 +0000
Subject: [PATCH 28/28] fix: take the values of a body before the steps which
 use them

---
 .../src/kuadrant/pipeline/blueprint.rs        | 21 ++++++++++-----
 .../src/kuadrant/pipeline/executor.rs         |  7 ++++-
 .../src/kuadrant/pipeline/tasks/headers.rs    | 18 +++++++++++--
 .../src/kuadrant/pipeline/tasks/mod.rs        |  5 ++++
 .../kuadrant/pipeline/tasks/request_body.rs   |  4 +++
 .../src/kuadrant/pipeline/tasks/send_reply.rs |  9 ++++++-
 .../src/kuadrant/pipeline/tasks/store.rs      | 26 ++++++++++++++-----
 .../kuadrant/pipeline/tasks/token_usage.rs    |  4 +++
 8 files changed, 76 insertions(+), 18 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 5b0c846..a7b1f87 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -185,12 +185,14 @@ impl Action {
         }
     }
 
-    /// What is looked for in the request body; stores find their values by themselves
+    /// What is looked for in the request body
     fn request_body_values(&self) -> BTreeSet<String> {
-        let mut fields = BTreeSet::new();
-        if !matches!(self.operation, Operation::Store { .. }) {
-            fields.extend(self.predicate.request_body_values().iter().cloned());
-        }
+        let mut fields: BTreeSet<String> = self
+            .predicate
+            .request_body_values()
+            .iter()
+            .cloned()
+            .collect();
         match &self.operation {
             Operation::Grpc {
                 message_builder,
@@ -206,7 +208,10 @@ impl Action {
             Operation::Headers { headers, .. } => {
                 fields.extend(headers.request_body_values().iter().cloned());
             }
-            Operation::Store { .. } | Operation::Fail { .. } => {}
+            Operation::Store { expression, .. } => {
+                fields.extend(expression.request_body_values().iter().cloned());
+            }
+            Operation::Fail { .. } => {}
         }
         fields
     }
@@ -429,7 +434,9 @@ impl Blueprint {
 
         for action in &self.actions {
             let request_fields = action.request_body_values();
-            if !request_fields.is_empty() {
+            // stores read the body by themselves, unless they have to wait for a reply
+            let reads_body = matches!(action.operation, Operation::Store { .. });
+            if !request_fields.is_empty() && !reads_body {
                 match RequestBodyTask::new(request_fields.into_iter().collect()) {
                     Ok(task) => tasks.push(Box::new(task)),
                     Err(e) => error!("Cannot look into the request body: {e}"),
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 4a44c5d..5be39ff 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -147,7 +147,12 @@ impl Pipeline {
     }
 
     pub fn eval(mut self) -> PipelineState {
-        let tasks = self.task_queue.drain(..).collect();
+        // The tasks of a reply are ahead of the queue, and may need values of the current body
+        let (mut tasks, others): (Vec<_>, Vec<_>) = self
+            .task_queue
+            .drain(..)
+            .partition(|task| task.provides_body_values());
+        tasks.extend(others);
         match self.process_tasks(tasks) {
             ProcessOutcome::Terminated => {
                 self.execute_teardown();
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
index feac96b..8bde2ca 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
@@ -67,7 +67,14 @@ impl Task for ModifyHeadersTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if ctx.lacks_body_values(
+                    self.predicate.request_body_values(),
+                    self.predicate.response_body_values(),
+                ) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
@@ -77,7 +84,14 @@ impl Task for ModifyHeadersTask {
 
         let operation = match self.headers_expr.eval(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if ctx.lacks_body_values(
+                    self.headers_expr.request_body_values(),
+                    self.headers_expr.response_body_values(),
+                ) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Ok(AttributeState::Available(ref val)) => {
                 let pairs = cel_value_to_header_pairs(val);
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 15a002b..d5f3af4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -42,6 +42,11 @@ pub trait Task {
     fn cel_types(&self) -> Vec<cel::StructDef> {
         vec![]
     }
+
+    /// Whether it takes values out of a body, for other tasks to use
+    fn provides_body_values(&self) -> bool {
+        false
+    }
 }
 
 pub struct PendingTask {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs
index 92d7c41..0a9ee76 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs
@@ -44,6 +44,10 @@ impl Task for RequestBodyTask {
         "request_body"
     }
 
+    fn provides_body_values(&self) -> bool {
+        true
+    }
+
     fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
         if let Err(e) = self.read(ctx) {
             error!("Failed to read the request body: {e}");
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 86453fe..6290a3a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -64,7 +64,14 @@ impl Task for SendReplyTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if ctx.lacks_body_values(
+                    self.predicate.request_body_values(),
+                    self.predicate.response_body_values(),
+                ) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 6e8c9e7..ab7a724 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -164,11 +164,9 @@ impl Task for StoreTask {
             };
 
             let Some(offset) = body_ctx.offset_of(*consumed) else {
-                error!(
-                    "The beginning of the body is gone already for '{}'",
-                    self.path
-                );
-                return TaskOutcome::Failed;
+                // The beginning of the body is gone already: the values are those found meanwhile
+                self.body_parse_state = BodyParseState::NotNeeded;
+                return self.apply(ctx);
             };
 
             let bytes_to_read = body_ctx.unread(*consumed);
@@ -233,7 +231,14 @@ impl Task for StoreTask {
                 Ok(AttributeState::Available(true)) => {}
                 Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
                 Ok(AttributeState::Pending) => {
-                    return TaskOutcome::Requeued(vec![self]);
+                    return if ctx.lacks_body_values(
+                        predicate.request_body_values(),
+                        predicate.response_body_values(),
+                    ) {
+                        TaskOutcome::Failed
+                    } else {
+                        TaskOutcome::Requeued(vec![self])
+                    };
                 }
                 Err(e) => {
                     error!("Failed to evaluate predicate: {e:?}");
@@ -246,7 +251,14 @@ impl Task for StoreTask {
 
         let value = match self.expression.eval(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if ctx.lacks_body_values(
+                    self.expression.request_body_values(),
+                    self.expression.response_body_values(),
+                ) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Ok(AttributeState::Available(val)) => val,
             Err(e) => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 8f0efd5..7537e0a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -43,6 +43,10 @@ impl Task for TokenUsageTask {
         "token_usage"
     }
 
+    fn provides_body_values(&self) -> bool {
+        true
+    }
+
     #[tracing::instrument(name = "token_usage", skip(self, ctx))]
     fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
         let mut task: TokenUsageTask = self.into();
-- 
2.43.0

