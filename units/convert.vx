%unit convert
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/content_types.rs
%enum ContentTypeHint
%src rust/pact_models/src/bodies.rs
%enum OptionalBody
%include body_val.rs
%include body_spec.rs
%prelude
verus! {
pub enum PactSpecification { Unknown, V1, V1_1, V2, V3, V4 }
#[verifier::external_body] pub struct MatchingRules { _p: () }
#[verifier::external_body] pub struct Generators { _p: () }
}
%src rust/pact_models/src/v4/http_parts.rs
%struct HttpRequest
%struct HttpResponse
%src rust/pact_models/src/v4/message_parts.rs
%struct MessageContents
%src rust/pact_models/src/request.rs
%struct Request
%src rust/pact_models/src/response.rs
%struct Response
%include parts_spec.rs
%src rust/pact_models/src/provider_states.rs
%struct ProviderState
%src rust/pact_models/src/v4/mod.rs
%enum V4InteractionType
%src rust/pact_models/src/v4/interaction.rs
%struct InteractionMarkup
%src rust/pact_models/src/v4/synch_http.rs
%struct SynchronousHttp
%src rust/pact_models/src/v4/async_message.rs
%struct AsynchronousMessage
%src rust/pact_models/src/v4/sync_message.rs
%struct SynchronousMessage
%src rust/pact_models/src/sync_interaction.rs
%struct RequestResponseInteraction
%src rust/pact_models/src/message.rs
%struct Message
%include convert_spec.rs
%src rust/pact_models/src/v4/http_parts.rs
%fn Default for HttpRequest::default
%rename default_
%sub 2 `.into()` => `.to_string()`
%sub `MatchingRules::default()` => `no_rules()`
%sub `Generators::default()` => `no_gens()`
%sig
  ensures rq(r) == no_request()
%fn Default for HttpResponse::default
%rename default_
%sub `MatchingRules::default()` => `no_rules()`
%sub `Generators::default()` => `no_gens()`
%sig
  ensures sq(r) == no_response()
%fn HttpRequest::as_v3_request
%sub `self.query.clone()` => `vx_clone_queryo(&self.query)`
%sub `self.headers.clone()` => `vx_clone_headers(&self.headers)`
%sig
  ensures r3q(r) == rq(*self)
%fn HttpResponse::as_v3_response
%sub `self.headers.clone()` => `vx_clone_headers(&self.headers)`
%sig
  ensures s3q(r) == sq(*self)
%src rust/pact_models/src/request.rs
%fn Request::as_v4_request
%sub `self.query.clone()` => `vx_clone_queryo(&self.query)`
%sub `self.headers.clone()` => `vx_clone_headers(&self.headers)`
%sig
  ensures rq(r) == r3q(*self)
%src rust/pact_models/src/response.rs
%fn Response::as_v4_response
%sub `self.headers.clone()` => `vx_clone_headers(&self.headers)`
%sig
  ensures sq(r) == s3q(*self)
%src rust/pact_models/src/v4/mod.rs
%fn Display for V4InteractionType::fmt
%free
%rename type_fmt
%sub `&self` => `self_: &V4InteractionType`
%sub `f: &mut Formatter<'_>` => `f: &mut String`
%sub `fmt::Result` => `Result<(), VxError>`
%sub `match *self` => `match *self_`
%sub 3 `f.write_str(` => `vx_write_str(f, `
%sig
  ensures r is Ok, final(f)@ == old(f)@ + type_text(*self_)
%src rust/pact_models/src/v4/synch_http.rs
%fn Default for SynchronousHttp::default
%rename default_
%sub `HttpRequest::default()` => `HttpRequest::default_()`
%sub `HttpResponse::default()` => `HttpResponse::default_()`
%sub `comments: Default::default()` => `comments: HashMap::new()`
%sub `plugin_config: Default::default()` => `plugin_config: HashMap::new()`
%sub `interaction_markup: Default::default()` => `interaction_markup: no_markup_()`
%sig
  ensures hq(r) == http_default()
%tail_after
  proof { let c = hq(vx_ret).common; let e = http_default().common; assert(c.states =~= e.states); assert(c.comments =~= e.comments); assert(c.plugin =~= e.plugin); assert(c =~= e); }
%fn V4Interaction for SynchronousHttp::v4_type
%rename v4_type
%sig
  ensures r == V4InteractionType::Synchronous_HTTP
%fn Interaction for SynchronousHttp::type_of
%rename type_of
%fmt exact
%sig
  ensures r@ == "V4 "@ + type_text(V4InteractionType::Synchronous_HTTP)
%tail_after
  proof { reveal_strlit("V4 "); assert("V4 "@ =~= seq!['V', '4', ' ']); assert(vx_ret@ =~= "V4 "@ + type_text(V4InteractionType::Synchronous_HTTP)); }
%fn V4Interaction for SynchronousHttp::boxed_v4
%rename boxed_v4
%sub `Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Http(i) && hq(i) == hq(*self)
%fn V4Interaction for SynchronousHttp::to_super
%rename to_super
%sub `&(dyn Interaction + Send + Sync + RefUnwindSafe)` => `&Self`
%sig
  ensures r == self
%fn V4Interaction for SynchronousHttp::to_super_mut
%rename to_super_mut
%sub `&mut (dyn Interaction + Send + Sync)` => `&mut Self`
%sig
  ensures *r == *old(self), *final(self) == *final(r)
%fn V4Interaction for SynchronousHttp::key
%rename key
%sig
  ensures sto(r) == hq(*self).common.key
%fn V4Interaction for SynchronousHttp::comments
%rename comments
%sub `self.comments.clone()` => `vx_clone_meta(&self.comments)`
%sig
  ensures meta(r) == hq(*self).common.comments
%fn V4Interaction for SynchronousHttp::comments_mut
%rename comments_mut
%sig
  ensures *r == old(self).comments, *final(self) == (SynchronousHttp { comments: *final(r), ..*old(self) })
%fn V4Interaction for SynchronousHttp::plugin_config
%rename plugin_config
%sub `self.plugin_config.clone()` => `vx_clone_config(&self.plugin_config)`
%sig
  ensures pcq(r) == hq(*self).common.plugin
%fn V4Interaction for SynchronousHttp::plugin_config_mut
%rename plugin_config_mut
%sig
  ensures *r == old(self).plugin_config, *final(self) == (SynchronousHttp { plugin_config: *final(r), ..*old(self) })
%fn V4Interaction for SynchronousHttp::interaction_markup
%rename interaction_markup
%sig
  ensures mkq(r) == hq(*self).common.markup
%fn V4Interaction for SynchronousHttp::interaction_markup_mut
%rename interaction_markup_mut
%sig
  ensures *r == old(self).interaction_markup, *final(self) == (SynchronousHttp { interaction_markup: *final(r), ..*old(self) })
%fn V4Interaction for SynchronousHttp::transport
%rename transport
%sig
  ensures sto(r) == hq(*self).common.transport
%fn V4Interaction for SynchronousHttp::set_transport
%rename set_transport
%sig
  ensures hq(*final(self)) == with_common_http(hq(*old(self)), IQ { transport: sto(transport), ..hq(*old(self)).common })
%fn V4Interaction for SynchronousHttp::with_unique_key
%rename with_unique_key
%sub `Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Http(i) && hq(i) == with_common_http(hq(*self), IQ { key: Some(key_of_http(hq(*self))), ..hq(*self).common })
%fn SynchronousHttp::with_key
%sig
  ensures hq(r) == with_common_http(hq(*self), IQ { key: Some(key_of_http(hq(*self))), ..hq(*self).common })
%fn V4Interaction for SynchronousHttp::unique_key
%rename unique_key
%sig
  ensures r@ == (match hq(*self).common.key { Some(k) => k, None => key_of_http(hq(*self)) })
%fn Interaction for SynchronousHttp::pending
%rename pending
%sig
  ensures r == hq(*self).common.pending
%fn Interaction for SynchronousHttp::id
%rename id
%sig
  ensures sto(r) == hq(*self).common.id
%fn Interaction for SynchronousHttp::description
%rename description
%sig
  ensures r@ == hq(*self).common.description
%fn Interaction for SynchronousHttp::set_id
%rename set_id
%sig
  ensures *final(self) == (SynchronousHttp { id: id, ..*old(self) })
%fn Interaction for SynchronousHttp::set_description
%rename set_description
%sig
  ensures hq(*final(self)) == with_common_http(hq(*old(self)), IQ { description: description@, ..hq(*old(self)).common })
%fn Interaction for SynchronousHttp::provider_states
%rename provider_states
%sub `self.provider_states.clone()` => `vx_clone_states(&self.provider_states)`
%sig
  ensures states(r@) == hq(*self).common.states
%fn Interaction for SynchronousHttp::provider_states_mut
%rename provider_states_mut
%sig
  ensures *r == old(self).provider_states, *final(self) == (SynchronousHttp { provider_states: *final(r), ..*old(self) })
%fn Interaction for SynchronousHttp::contents
%rename contents
%sig
  ensures bq(r) == hq(*self).response.body
%fn Interaction for SynchronousHttp::contents_for_verification
%rename contents_for_verification
%sig
  ensures bq(r) == hq(*self).response.body
%fn Interaction for SynchronousHttp::matching_rules
%rename matching_rules
%sig
  ensures r is None
%fn Interaction for SynchronousHttp::is_request_response
%rename is_request_response
%sig
  ensures r
%fn Interaction for SynchronousHttp::is_message
%rename is_message
%sig
  ensures !r
%fn Interaction for SynchronousHttp::is_v4
%rename is_v4
%sig
  ensures r
%fn Interaction for SynchronousHttp::is_v4_http
%rename is_v4_http
%sig
  ensures r
%fn Interaction for SynchronousHttp::as_request_response
%rename as_request_response
%sub `self.provider_states.clone()` => `vx_clone_states(&self.provider_states)`
%sig
  ensures r is Some && rrq(r->0) == to_rr(hq(*self))
%fn Interaction for SynchronousHttp::as_message
%rename as_message
%sig
  ensures r is None
%fn Interaction for SynchronousHttp::as_v4_http
%rename as_v4_http
%sig
  ensures r is Some && hq(r->0) == hq(*self)
%fn Interaction for SynchronousHttp::as_v4_async_message
%rename as_v4_async_message
%sig
  ensures r is None
%fn Interaction for SynchronousHttp::as_v4_sync_message
%rename as_v4_sync_message
%sig
  ensures r is None
%fn Interaction for SynchronousHttp::as_v4_http_mut
%rename as_v4_http_mut
%sig
  ensures r is Some, *r->0 == *old(self), *final(self) == *final(r->0)
%fn Interaction for SynchronousHttp::as_v4_async_message_mut
%rename as_v4_async_message_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for SynchronousHttp::as_v4_sync_message_mut
%rename as_v4_sync_message_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for SynchronousHttp::as_v4_mut
%rename as_v4_mut
%sub `Option<&mut dyn V4Interaction>` => `Option<&mut Self>`
%sig
  ensures r is Some, *r->0 == *old(self), *final(self) == *final(r->0)
%fn Interaction for SynchronousHttp::as_v4
%rename as_v4
%sub `Option<Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>` => `Option<DynI>`
%sig
  ensures r matches Some(DynI::Http(i)) && hq(i) == hq(*self)
%fn Interaction for SynchronousHttp::boxed
%rename boxed
%sub `Box<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Http(i) && hq(i) == hq(*self)
%fn Interaction for SynchronousHttp::arced
%rename arced
%sub `Arc<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Http(i) && hq(i) == hq(*self)
%fn Interaction for SynchronousHttp::thread_safe
%rename thread_safe
%sub `Arc<Mutex<dyn Interaction + Send + Sync + RefUnwindSafe>>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sub `Mutex::new(` => `vx_id(`
%sig
  ensures r matches DynI::Http(i) && hq(i) == hq(*self)
%src rust/pact_models/src/v4/async_message.rs
%fn Default for AsynchronousMessage::default
%rename default_
%sub `metadata: Default::default()` => `metadata: HashMap::new()`
%sub `matching_rules: Default::default()` => `matching_rules: no_rules()`
%sub `generators: Default::default()` => `generators: no_gens()`
%sub `comments: Default::default()` => `comments: HashMap::new()`
%sub `plugin_config: Default::default()` => `plugin_config: HashMap::new()`
%sub `interaction_markup: Default::default()` => `interaction_markup: no_markup_()`
%sig
  ensures amq(r) == async_default()
%tail_after
  proof { let c = amq(vx_ret).common; let e = async_default().common; assert(c.states =~= e.states); assert(c.comments =~= e.comments); assert(c.plugin =~= e.plugin); assert(c =~= e); assert(meta(vx_ret.contents.metadata) =~= Map::empty()); assert(amq(vx_ret).contents =~= async_default().contents); }
%fn V4Interaction for AsynchronousMessage::v4_type
%rename v4_type
%sig
  ensures r == V4InteractionType::Asynchronous_Messages
%fn Interaction for AsynchronousMessage::type_of
%rename type_of
%fmt exact
%sig
  ensures r@ == "V4 "@ + type_text(V4InteractionType::Asynchronous_Messages)
%tail_after
  proof { reveal_strlit("V4 "); assert("V4 "@ =~= seq!['V', '4', ' ']); assert(vx_ret@ =~= "V4 "@ + type_text(V4InteractionType::Asynchronous_Messages)); }
%fn V4Interaction for AsynchronousMessage::boxed_v4
%rename boxed_v4
%sub `Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Async(i) && amq(i) == amq(*self)
%fn V4Interaction for AsynchronousMessage::to_super
%rename to_super
%sub `&(dyn Interaction + Send + Sync + RefUnwindSafe)` => `&Self`
%sig
  ensures r == self
%fn V4Interaction for AsynchronousMessage::to_super_mut
%rename to_super_mut
%sub `&mut (dyn Interaction + Send + Sync)` => `&mut Self`
%sig
  ensures *r == *old(self), *final(self) == *final(r)
%fn V4Interaction for AsynchronousMessage::key
%rename key
%sig
  ensures sto(r) == amq(*self).common.key
%fn V4Interaction for AsynchronousMessage::comments
%rename comments
%sub `self.comments.clone()` => `vx_clone_meta(&self.comments)`
%sig
  ensures meta(r) == amq(*self).common.comments
%fn V4Interaction for AsynchronousMessage::comments_mut
%rename comments_mut
%sig
  ensures *r == old(self).comments, *final(self) == (AsynchronousMessage { comments: *final(r), ..*old(self) })
%fn V4Interaction for AsynchronousMessage::plugin_config
%rename plugin_config
%sub `self.plugin_config.clone()` => `vx_clone_config(&self.plugin_config)`
%sig
  ensures pcq(r) == amq(*self).common.plugin
%fn V4Interaction for AsynchronousMessage::plugin_config_mut
%rename plugin_config_mut
%sig
  ensures *r == old(self).plugin_config, *final(self) == (AsynchronousMessage { plugin_config: *final(r), ..*old(self) })
%fn V4Interaction for AsynchronousMessage::interaction_markup
%rename interaction_markup
%sig
  ensures mkq(r) == amq(*self).common.markup
%fn V4Interaction for AsynchronousMessage::interaction_markup_mut
%rename interaction_markup_mut
%sig
  ensures *r == old(self).interaction_markup, *final(self) == (AsynchronousMessage { interaction_markup: *final(r), ..*old(self) })
%fn V4Interaction for AsynchronousMessage::transport
%rename transport
%sig
  ensures sto(r) == amq(*self).common.transport
%fn V4Interaction for AsynchronousMessage::set_transport
%rename set_transport
%sig
  ensures amq(*final(self)) == with_common_async(amq(*old(self)), IQ { transport: sto(transport), ..amq(*old(self)).common })
%fn V4Interaction for AsynchronousMessage::with_unique_key
%rename with_unique_key
%sub `Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Async(i) && amq(i) == with_common_async(amq(*self), IQ { key: Some(key_of_async(amq(*self))), ..amq(*self).common })
%fn AsynchronousMessage::with_key
%sig
  ensures amq(r) == with_common_async(amq(*self), IQ { key: Some(key_of_async(amq(*self))), ..amq(*self).common })
%fn V4Interaction for AsynchronousMessage::unique_key
%rename unique_key
%sig
  ensures r@ == (match amq(*self).common.key { Some(k) => k, None => key_of_async(amq(*self)) })
%fn Interaction for AsynchronousMessage::pending
%rename pending
%sig
  ensures r == amq(*self).common.pending
%fn Interaction for AsynchronousMessage::id
%rename id
%sig
  ensures sto(r) == amq(*self).common.id
%fn Interaction for AsynchronousMessage::description
%rename description
%sig
  ensures r@ == amq(*self).common.description
%fn Interaction for AsynchronousMessage::set_id
%rename set_id
%sig
  ensures *final(self) == (AsynchronousMessage { id: id, ..*old(self) })
%fn Interaction for AsynchronousMessage::set_description
%rename set_description
%sig
  ensures amq(*final(self)) == with_common_async(amq(*old(self)), IQ { description: description@, ..amq(*old(self)).common })
%fn Interaction for AsynchronousMessage::provider_states
%rename provider_states
%sub `self.provider_states.clone()` => `vx_clone_states(&self.provider_states)`
%sig
  ensures states(r@) == amq(*self).common.states
%fn Interaction for AsynchronousMessage::provider_states_mut
%rename provider_states_mut
%sig
  ensures *r == old(self).provider_states, *final(self) == (AsynchronousMessage { provider_states: *final(r), ..*old(self) })
%fn Interaction for AsynchronousMessage::contents
%rename contents
%sig
  ensures bq(r) == amq(*self).contents.contents
%fn Interaction for AsynchronousMessage::contents_for_verification
%rename contents_for_verification
%sig
  ensures bq(r) == amq(*self).contents.contents
%fn Interaction for AsynchronousMessage::matching_rules
%rename matching_rules
%sig
  ensures r is Some && mq(r->0) == amq(*self).contents.rules
%fn Interaction for AsynchronousMessage::is_request_response
%rename is_request_response
%sig
  ensures !r
%fn Interaction for AsynchronousMessage::is_message
%rename is_message
%sig
  ensures r
%fn Interaction for AsynchronousMessage::is_v4
%rename is_v4
%sig
  ensures r
%fn Interaction for AsynchronousMessage::is_v4_async_message
%rename is_v4_async_message
%sig
  ensures r
%fn Interaction for AsynchronousMessage::as_request_response
%rename as_request_response
%sig
  ensures r is None
%fn Interaction for AsynchronousMessage::as_message
%rename as_message
%sub `self.contents.metadata.clone()` => `vx_clone_meta(&self.contents.metadata)`
%sub `if let Vacant(entry) = metadata.entry("contentType".to_string()) { entry.insert(json!( content_type.to_string() )); }` => `vx_insert_new(&mut metadata, "contentType".to_string(), Value::String(content_type.to_string()));`
%sub `self.provider_states.clone()` => `vx_clone_states(&self.provider_states)`
%sig
  ensures r is Some && msq(r->0) == to_msg(amq(*self))
%tail_after
  proof { broadcast use axiom_jv; assert(msq(vx_ret->0).metadata =~= to_msg(amq(*self)).metadata); }
%fn Interaction for AsynchronousMessage::as_v4_http
%rename as_v4_http
%sig
  ensures r is None
%fn Interaction for AsynchronousMessage::as_v4_async_message
%rename as_v4_async_message
%sig
  ensures r is Some && amq(r->0) == amq(*self)
%fn Interaction for AsynchronousMessage::as_v4_sync_message
%rename as_v4_sync_message
%sig
  ensures r is None
%fn Interaction for AsynchronousMessage::as_v4_http_mut
%rename as_v4_http_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for AsynchronousMessage::as_v4_async_message_mut
%rename as_v4_async_message_mut
%sig
  ensures r is Some, *r->0 == *old(self), *final(self) == *final(r->0)
%fn Interaction for AsynchronousMessage::as_v4_sync_message_mut
%rename as_v4_sync_message_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for AsynchronousMessage::as_v4_mut
%rename as_v4_mut
%sub `Option<&mut dyn V4Interaction>` => `Option<&mut Self>`
%sig
  ensures r is Some, *r->0 == *old(self), *final(self) == *final(r->0)
%fn Interaction for AsynchronousMessage::as_v4
%rename as_v4
%sub `Option<Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>` => `Option<DynI>`
%sig
  ensures r matches Some(DynI::Async(i)) && amq(i) == amq(*self)
%fn Interaction for AsynchronousMessage::boxed
%rename boxed
%sub `Box<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Async(i) && amq(i) == amq(*self)
%fn Interaction for AsynchronousMessage::arced
%rename arced
%sub `Arc<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Async(i) && amq(i) == amq(*self)
%fn Interaction for AsynchronousMessage::thread_safe
%rename thread_safe
%sub `Arc<Mutex<dyn Interaction + Send + Sync + RefUnwindSafe>>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sub `Mutex::new(` => `vx_id(`
%sig
  ensures r matches DynI::Async(i) && amq(i) == amq(*self)
%src rust/pact_models/src/v4/sync_message.rs
%fn Default for SynchronousMessage::default
%rename default_
%sub `request: Default::default()` => `request: no_contents()`
%sub `response: Default::default()` => `response: Vec::new()`
%sub `comments: Default::default()` => `comments: HashMap::new()`
%sub `plugin_config: Default::default()` => `plugin_config: HashMap::new()`
%sub `interaction_markup: Default::default()` => `interaction_markup: no_markup_()`
%sig
  ensures smq(r) == sync_default()
%tail_after
  proof { let c = smq(vx_ret).common; let e = sync_default().common; assert(c.states =~= e.states); assert(c.comments =~= e.comments); assert(c.plugin =~= e.plugin); assert(c =~= e); assert(smq(vx_ret).response =~= sync_default().response); }
%fn V4Interaction for SynchronousMessage::v4_type
%rename v4_type
%sig
  ensures r == V4InteractionType::Synchronous_Messages
%fn Interaction for SynchronousMessage::type_of
%rename type_of
%fmt exact
%sig
  ensures r@ == "V4 "@ + type_text(V4InteractionType::Synchronous_Messages)
%tail_after
  proof { reveal_strlit("V4 "); assert("V4 "@ =~= seq!['V', '4', ' ']); assert(vx_ret@ =~= "V4 "@ + type_text(V4InteractionType::Synchronous_Messages)); }
%fn V4Interaction for SynchronousMessage::boxed_v4
%rename boxed_v4
%sub `Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Sync(i) && smq(i) == smq(*self)
%fn V4Interaction for SynchronousMessage::to_super
%rename to_super
%sub `&(dyn Interaction + Send + Sync + RefUnwindSafe)` => `&Self`
%sig
  ensures r == self
%fn V4Interaction for SynchronousMessage::to_super_mut
%rename to_super_mut
%sub `&mut (dyn Interaction + Send + Sync)` => `&mut Self`
%sig
  ensures *r == *old(self), *final(self) == *final(r)
%fn V4Interaction for SynchronousMessage::key
%rename key
%sig
  ensures sto(r) == smq(*self).common.key
%fn V4Interaction for SynchronousMessage::comments
%rename comments
%sub `self.comments.clone()` => `vx_clone_meta(&self.comments)`
%sig
  ensures meta(r) == smq(*self).common.comments
%fn V4Interaction for SynchronousMessage::comments_mut
%rename comments_mut
%sig
  ensures *r == old(self).comments, *final(self) == (SynchronousMessage { comments: *final(r), ..*old(self) })
%fn V4Interaction for SynchronousMessage::plugin_config
%rename plugin_config
%sub `self.plugin_config.clone()` => `vx_clone_config(&self.plugin_config)`
%sig
  ensures pcq(r) == smq(*self).common.plugin
%fn V4Interaction for SynchronousMessage::plugin_config_mut
%rename plugin_config_mut
%sig
  ensures *r == old(self).plugin_config, *final(self) == (SynchronousMessage { plugin_config: *final(r), ..*old(self) })
%fn V4Interaction for SynchronousMessage::interaction_markup
%rename interaction_markup
%sig
  ensures mkq(r) == smq(*self).common.markup
%fn V4Interaction for SynchronousMessage::interaction_markup_mut
%rename interaction_markup_mut
%sig
  ensures *r == old(self).interaction_markup, *final(self) == (SynchronousMessage { interaction_markup: *final(r), ..*old(self) })
%fn V4Interaction for SynchronousMessage::transport
%rename transport
%sig
  ensures sto(r) == smq(*self).common.transport
%fn V4Interaction for SynchronousMessage::set_transport
%rename set_transport
%sig
  ensures smq(*final(self)) == with_common_sync(smq(*old(self)), IQ { transport: sto(transport), ..smq(*old(self)).common })
%fn V4Interaction for SynchronousMessage::with_unique_key
%rename with_unique_key
%sub `Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Sync(i) && smq(i) == with_common_sync(smq(*self), IQ { key: Some(key_of_sync(smq(*self))), ..smq(*self).common })
%fn SynchronousMessage::with_key
%sig
  ensures smq(r) == with_common_sync(smq(*self), IQ { key: Some(key_of_sync(smq(*self))), ..smq(*self).common })
%fn V4Interaction for SynchronousMessage::unique_key
%rename unique_key
%sig
  ensures r@ == (match smq(*self).common.key { Some(k) => k, None => key_of_sync(smq(*self)) })
%fn Interaction for SynchronousMessage::pending
%rename pending
%sig
  ensures r == smq(*self).common.pending
%fn Interaction for SynchronousMessage::id
%rename id
%sig
  ensures sto(r) == smq(*self).common.id
%fn Interaction for SynchronousMessage::description
%rename description
%sig
  ensures r@ == smq(*self).common.description
%fn Interaction for SynchronousMessage::set_id
%rename set_id
%sig
  ensures *final(self) == (SynchronousMessage { id: id, ..*old(self) })
%fn Interaction for SynchronousMessage::set_description
%rename set_description
%sig
  ensures smq(*final(self)) == with_common_sync(smq(*old(self)), IQ { description: description@, ..smq(*old(self)).common })
%fn Interaction for SynchronousMessage::provider_states
%rename provider_states
%sub `self.provider_states.clone()` => `vx_clone_states(&self.provider_states)`
%sig
  ensures states(r@) == smq(*self).common.states
%fn Interaction for SynchronousMessage::provider_states_mut
%rename provider_states_mut
%sig
  ensures *r == old(self).provider_states, *final(self) == (SynchronousMessage { provider_states: *final(r), ..*old(self) })
%fn Interaction for SynchronousMessage::contents
%rename contents
%sig
  ensures bq(r) == BQ::Missing
%fn Interaction for SynchronousMessage::contents_for_verification
%rename contents_for_verification
%closure 0 |message: &MessageContents| -> (o: OptionalBody) ensures bq(o) == bq(message.contents)
%sub `.unwrap_or_default()` => `.unwrap_or(OptionalBody::Missing)`
%sig
  ensures bq(r) == (if smq(*self).response.len() > 0 { smq(*self).response[0].contents } else { BQ::Missing })
%fn Interaction for SynchronousMessage::matching_rules
%rename matching_rules
%sig
  ensures r is None
%fn Interaction for SynchronousMessage::is_request_response
%rename is_request_response
%sig
  ensures !r
%fn Interaction for SynchronousMessage::is_message
%rename is_message
%sig
  ensures !r
%fn Interaction for SynchronousMessage::is_v4
%rename is_v4
%sig
  ensures r
%fn Interaction for SynchronousMessage::is_v4_sync_message
%rename is_v4_sync_message
%sig
  ensures r
%fn Interaction for SynchronousMessage::as_request_response
%rename as_request_response
%sig
  ensures r is None
%fn Interaction for SynchronousMessage::as_message
%rename as_message
%sig
  ensures r is None
%fn Interaction for SynchronousMessage::as_v4_http
%rename as_v4_http
%sig
  ensures r is None
%fn Interaction for SynchronousMessage::as_v4_async_message
%rename as_v4_async_message
%sig
  ensures r is None
%fn Interaction for SynchronousMessage::as_v4_sync_message
%rename as_v4_sync_message
%sig
  ensures r is Some && smq(r->0) == smq(*self)
%fn Interaction for SynchronousMessage::as_v4_http_mut
%rename as_v4_http_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for SynchronousMessage::as_v4_async_message_mut
%rename as_v4_async_message_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for SynchronousMessage::as_v4_sync_message_mut
%rename as_v4_sync_message_mut
%sig
  ensures r is Some, *r->0 == *old(self), *final(self) == *final(r->0)
%fn Interaction for SynchronousMessage::as_v4_mut
%rename as_v4_mut
%sub `Option<&mut dyn V4Interaction>` => `Option<&mut Self>`
%sig
  ensures r is Some, *r->0 == *old(self), *final(self) == *final(r->0)
%fn Interaction for SynchronousMessage::as_v4
%rename as_v4
%sub `Option<Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>` => `Option<DynI>`
%sig
  ensures r matches Some(DynI::Sync(i)) && smq(i) == smq(*self)
%fn Interaction for SynchronousMessage::boxed
%rename boxed
%sub `Box<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Sync(i) && smq(i) == smq(*self)
%fn Interaction for SynchronousMessage::arced
%rename arced
%sub `Arc<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Sync(i) && smq(i) == smq(*self)
%fn Interaction for SynchronousMessage::thread_safe
%rename thread_safe
%sub `Arc<Mutex<dyn Interaction + Send + Sync + RefUnwindSafe>>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sub `Mutex::new(` => `vx_id(`
%sig
  ensures r matches DynI::Sync(i) && smq(i) == smq(*self)
%src rust/pact_models/src/sync_interaction.rs
%fn Interaction for RequestResponseInteraction::type_of
%rename type_of
%sub `.into()` => `.to_string()`
%sig
  ensures r@ == "V3 Synchronous/HTTP"@
%fn Interaction for RequestResponseInteraction::id
%rename id
%sig
  ensures sto(r) == rrq(*self).id
%fn Interaction for RequestResponseInteraction::description
%rename description
%sig
  ensures r@ == rrq(*self).description
%fn Interaction for RequestResponseInteraction::set_id
%rename set_id
%sig
  ensures *final(self) == (RequestResponseInteraction { id: id, ..*old(self) })
%fn Interaction for RequestResponseInteraction::set_description
%rename set_description
%sig
  ensures rrq(*final(self)) == (RRQ { description: description@, ..rrq(*old(self)) })
%fn Interaction for RequestResponseInteraction::provider_states
%rename provider_states
%sub `self.provider_states.clone()` => `vx_clone_states(&self.provider_states)`
%sig
  ensures states(r@) == rrq(*self).states
%fn Interaction for RequestResponseInteraction::provider_states_mut
%rename provider_states_mut
%sig
  ensures *r == old(self).provider_states, *final(self) == (RequestResponseInteraction { provider_states: *final(r), ..*old(self) })
%fn Interaction for RequestResponseInteraction::contents
%rename contents
%sig
  ensures bq(r) == rrq(*self).response.body
%fn Interaction for RequestResponseInteraction::contents_for_verification
%rename contents_for_verification
%sig
  ensures bq(r) == rrq(*self).response.body
%fn Interaction for RequestResponseInteraction::matching_rules
%rename matching_rules
%sig
  ensures r is None
%fn Interaction for RequestResponseInteraction::is_request_response
%rename is_request_response
%sig
  ensures r
%fn Interaction for RequestResponseInteraction::is_message
%rename is_message
%sig
  ensures !r
%fn Interaction for RequestResponseInteraction::is_v4
%rename is_v4
%sig
  ensures !r
%fn Interaction for RequestResponseInteraction::as_request_response
%rename as_request_response
%sig
  ensures r is Some && rrq(r->0) == rrq(*self)
%fn Interaction for RequestResponseInteraction::as_message
%rename as_message
%sig
  ensures r is None
%fn Interaction for RequestResponseInteraction::as_v4_http
%rename as_v4_http
%sub `.. Default::default()` => `..SynchronousHttp::default_()`
%sub `self.provider_states.clone()` => `vx_clone_states(&self.provider_states)`
%sig
  ensures r is Some && hq(r->0) == of_rr(rrq(*self))
%fn Interaction for RequestResponseInteraction::as_v4_async_message
%rename as_v4_async_message
%sig
  ensures r is None
%fn Interaction for RequestResponseInteraction::as_v4_sync_message
%rename as_v4_sync_message
%sig
  ensures r is None
%fn Interaction for RequestResponseInteraction::as_v4_http_mut
%rename as_v4_http_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for RequestResponseInteraction::as_v4_async_message_mut
%rename as_v4_async_message_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for RequestResponseInteraction::as_v4_sync_message_mut
%rename as_v4_sync_message_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for RequestResponseInteraction::as_v4_mut
%rename as_v4_mut
%sub `Option<&mut dyn V4Interaction>` => `Option<&mut Self>`
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for RequestResponseInteraction::as_v4
%rename as_v4
%sub `Option<Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>` => `Option<DynI>`
%closure 0 |i: SynchronousHttp| -> (o: DynI) ensures o matches DynI::Http(j) && hq(j) == hq(i)
%sig
  ensures r matches Some(DynI::Http(i)) && hq(i) == of_rr(rrq(*self))
%fn Interaction for RequestResponseInteraction::boxed
%rename boxed
%sub `Box<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Rr(i) && rrq(i) == rrq(*self)
%fn Interaction for RequestResponseInteraction::arced
%rename arced
%sub `Arc<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Rr(i) && rrq(i) == rrq(*self)
%fn Interaction for RequestResponseInteraction::thread_safe
%rename thread_safe
%sub `Arc<Mutex<dyn Interaction + Send + Sync + RefUnwindSafe>>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sub `Mutex::new(` => `vx_id(`
%sig
  ensures r matches DynI::Rr(i) && rrq(i) == rrq(*self)
%src rust/pact_models/src/message.rs
%fn Interaction for Message::type_of
%rename type_of
%sub `.into()` => `.to_string()`
%sig
  ensures r@ == "V3 Asynchronous/Messages"@
%fn Interaction for Message::id
%rename id
%sig
  ensures sto(r) == msq(*self).id
%fn Interaction for Message::description
%rename description
%sig
  ensures r@ == msq(*self).description
%fn Interaction for Message::set_id
%rename set_id
%sig
  ensures *final(self) == (Message { id: id, ..*old(self) })
%fn Interaction for Message::set_description
%rename set_description
%sig
  ensures msq(*final(self)) == (MSG { description: description@, ..msq(*old(self)) })
%fn Interaction for Message::provider_states
%rename provider_states
%sub `self.provider_states.clone()` => `vx_clone_states(&self.provider_states)`
%sig
  ensures states(r@) == msq(*self).states
%fn Interaction for Message::provider_states_mut
%rename provider_states_mut
%sig
  ensures *r == old(self).provider_states, *final(self) == (Message { provider_states: *final(r), ..*old(self) })
%fn Interaction for Message::contents
%rename contents
%sig
  ensures bq(r) == msq(*self).contents
%fn Interaction for Message::contents_for_verification
%rename contents_for_verification
%sig
  ensures bq(r) == msq(*self).contents
%fn Interaction for Message::matching_rules
%rename matching_rules
%sig
  ensures r is Some && mq(r->0) == msq(*self).rules
%fn Interaction for Message::is_request_response
%rename is_request_response
%sig
  ensures !r
%fn Interaction for Message::is_message
%rename is_message
%sig
  ensures r
%fn Interaction for Message::is_v4
%rename is_v4
%sig
  ensures !r
%fn Interaction for Message::as_request_response
%rename as_request_response
%sig
  ensures r is None
%fn Interaction for Message::as_message
%rename as_message
%sig
  ensures r is Some && msq(r->0) == msq(*self)
%fn Interaction for Message::as_v4_http
%rename as_v4_http
%sig
  ensures r is None
%fn Interaction for Message::as_v4_async_message
%rename as_v4_async_message
%sub `.. Default::default()` => `..AsynchronousMessage::default_()`
%sub `self.metadata.iter() .map(|(k, v)| (k.clone(), v.clone())) .collect()` => `vx_clone_meta(&self.metadata)`
%sub `self.provider_states.clone()` => `vx_clone_states(&self.provider_states)`
%sig
  ensures r is Some && amq(r->0) == of_msg(msq(*self))
%fn Interaction for Message::as_v4_sync_message
%rename as_v4_sync_message
%sig
  ensures r is None
%fn Interaction for Message::as_v4_http_mut
%rename as_v4_http_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for Message::as_v4_async_message_mut
%rename as_v4_async_message_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for Message::as_v4_sync_message_mut
%rename as_v4_sync_message_mut
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for Message::as_v4_mut
%rename as_v4_mut
%sub `Option<&mut dyn V4Interaction>` => `Option<&mut Self>`
%sig
  ensures r is None, *final(self) == *old(self)
%fn Interaction for Message::as_v4
%rename as_v4
%sub `Option<Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>` => `Option<DynI>`
%closure 0 |i: AsynchronousMessage| -> (o: DynI) ensures o matches DynI::Async(j) && amq(j) == amq(i)
%sig
  ensures r matches Some(DynI::Async(i)) && amq(i) == of_msg(msq(*self))
%fn Interaction for Message::boxed
%rename boxed
%sub `Box<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Box::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Msg(i) && msq(i) == msq(*self)
%fn Interaction for Message::arced
%rename arced
%sub `Arc<dyn Interaction + Send + Sync + RefUnwindSafe>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sig
  ensures r matches DynI::Msg(i) && msq(i) == msq(*self)
%fn Interaction for Message::thread_safe
%rename thread_safe
%sub `Arc<Mutex<dyn Interaction + Send + Sync + RefUnwindSafe>>` => `DynI`
%sub `Arc::new(` => `vx_dyn(`
%sub `Mutex::new(` => `vx_id(`
%sig
  ensures r matches DynI::Msg(i) && msq(i) == msq(*self)
%src rust/pact_models/src/v4/interaction.rs
%fn Clone for Box<dynV4Interaction+Send+Sync+RefUnwindSafe>::clone
%selfty DynI
%rename clone_v4
%sub 3 `Box::new(` => `vx_dyn(`
%sub `panic!("Internal Error - Tried to clone an interaction that was not valid")` => `vx_panic()`
%sig
  requires is_v4q(dq(*self))
  ensures dq(r) == dq(*self)
%src rust/pact_models/src/interaction.rs
%fn trait Interaction::is_v4_http
%selfty Message
%sig
  ensures !r
%fn trait Interaction::is_v4_async_message
%selfty Message
%sig
  ensures !r
%fn trait Interaction::is_v4_sync_message
%selfty Message
%sig
  ensures !r
%fn trait Interaction::pending
%selfty Message
%sig
  ensures !r
%fn Clone for Box<dynInteraction>::clone
%selfty DynI
%rename clone_any
%sub 5 `Box::new(` => `vx_dyn(`
%sub 2 `panic!("Internal Error - Tried to clone an interaction that was not valid")` => `vx_panic()`
%sig
  ensures dq(r) == dq(*self)
%prelude
verus! {
impl DynI {
  pub fn as_v4_http(&self) -> (r: Option<SynchronousHttp>) ensures r is Some == dyn_http(dq(*self)) is Some, r is Some ==> hq(r->0) == dyn_http(dq(*self))->0 { match self { DynI::Http(i) => i.as_v4_http(), DynI::Async(i) => i.as_v4_http(), DynI::Sync(i) => i.as_v4_http(), DynI::Rr(i) => i.as_v4_http(), DynI::Msg(i) => i.as_v4_http() } }
  pub fn as_v4_async_message(&self) -> (r: Option<AsynchronousMessage>) ensures r is Some == dyn_async(dq(*self)) is Some, r is Some ==> amq(r->0) == dyn_async(dq(*self))->0 { match self { DynI::Http(i) => i.as_v4_async_message(), DynI::Async(i) => i.as_v4_async_message(), DynI::Sync(i) => i.as_v4_async_message(), DynI::Rr(i) => i.as_v4_async_message(), DynI::Msg(i) => i.as_v4_async_message() } }
  pub fn as_v4_sync_message(&self) -> (r: Option<SynchronousMessage>) ensures r is Some == dyn_sync(dq(*self)) is Some, r is Some ==> smq(r->0) == dyn_sync(dq(*self))->0 { match self { DynI::Http(i) => i.as_v4_sync_message(), DynI::Async(i) => i.as_v4_sync_message(), DynI::Sync(i) => i.as_v4_sync_message(), DynI::Rr(i) => i.as_v4_sync_message(), DynI::Msg(i) => i.as_v4_sync_message() } }
  pub fn as_request_response(&self) -> (r: Option<RequestResponseInteraction>) ensures r is Some == dyn_rr(dq(*self)) is Some, r is Some ==> rrq(r->0) == dyn_rr(dq(*self))->0 { match self { DynI::Http(i) => i.as_request_response(), DynI::Async(i) => i.as_request_response(), DynI::Sync(i) => i.as_request_response(), DynI::Rr(i) => i.as_request_response(), DynI::Msg(i) => i.as_request_response() } }
  pub fn as_message(&self) -> (r: Option<Message>) ensures r is Some == dyn_msg(dq(*self)) is Some, r is Some ==> msq(r->0) == dyn_msg(dq(*self))->0 { match self { DynI::Http(i) => i.as_message(), DynI::Async(i) => i.as_message(), DynI::Sync(i) => i.as_message(), DynI::Rr(i) => i.as_message(), DynI::Msg(i) => i.as_message() } }
  pub fn is_v4(&self) -> (r: bool) ensures r == is_v4q(dq(*self)) { match self { DynI::Http(i) => i.is_v4(), DynI::Async(i) => i.is_v4(), DynI::Sync(i) => i.is_v4(), DynI::Rr(i) => i.is_v4(), DynI::Msg(i) => i.is_v4() } }
}
}
