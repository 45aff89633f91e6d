-------------------------------- MODULE Meta --------------------------------
(* The object model of AsyncAPI 3.0 and its protocol bindings as implemented: *)
(* every class, its fields (Python name, AsyncAPI name, type), what it does   *)
(* with unknown fields, and the item type of every named collection.          *)
EXTENDS Types, TLC

Meta == TLCEval([
  AsyncAPI3 |-> Ext(<<
    Def("asyncapi", "asyncapi", SemVerT, S("3.0.0")),
    Opt("id", "id", UrlT),
    Req("info", "info", Obj("Info")),
    Opt("servers", "servers", Obj("Servers")),
    Opt("default_content_type", "defaultContentType", StrT),
    Opt("channels", "channels", Obj("Channels")),
    Opt("operations", "operations", Obj("Operations")),
    Opt("components", "components", Obj("Components"))>>),
  Reference |-> Closed(<<
    Req("ref", "$ref", StrT)>>),
  ExternalDocumentation |-> Ext(<<
    Req("url", "url", UrlT),
    Opt("description", "description", StrT)>>),
  Tag |-> Ext(<<
    Req("name", "name", StrT),
    Opt("description", "description", StrT),
    Opt("external_docs", "externalDocs", Union(<<Obj("ExternalDocumentation"), RefT>>))>>),
  Parameter |-> Ext(<<
    Opt("enum", "enum", ListT(StrT)),
    Opt("default", "default", StrT),
    Opt("description", "description", StrT),
    Opt("examples", "examples", ListT(StrT)),
    Opt("location", "location", StrT)>>),
  Parameters |-> MapOf(Union(<<Obj("Parameter"), RefT>>)),
  Channel |-> Ext(<<
    Keep("address", "address", StrT),
    Opt("messages", "messages", Obj("Messages")),
    Opt("title", "title", StrT),
    Opt("summary", "summary", StrT),
    Opt("description", "description", StrT),
    Opt("servers", "servers", ListT(RefT)),
    Opt("parameters", "parameters", Obj("Parameters")),
    Opt("tags", "tags", ListT(Union(<<Obj("Tag"), RefT>>))),
    Opt("external_docs", "externalDocs", Union(<<Obj("ExternalDocumentation"), RefT>>)),
    Opt("bindings", "bindings", Union(<<Obj("ChannelBindingsObject"), RefT>>))>>),
  Channels |-> MapOf(Union(<<Obj("Channel"), RefT>>)),
  Schemas |-> MapOf(Union(<<Obj("MultiFormatSchema"), Obj("Schema"), RefT>>)),
  SecuritySchemes |-> MapOf(Union(<<Obj("SecurityScheme"), RefT>>)),
  ServerVariables |-> MapOf(Union(<<Obj("ServerVariable"), RefT>>)),
  CorrelationIDs |-> MapOf(Union(<<Obj("CorrelationID"), RefT>>)),
  Replies |-> MapOf(Union(<<Obj("OperationReply"), RefT>>)),
  ReplyAddresses |-> MapOf(Union(<<Obj("OperationReplyAddress"), RefT>>)),
  ExternalDocs |-> MapOf(Union(<<Obj("ExternalDocumentation"), RefT>>)),
  Tags |-> MapOf(Union(<<Obj("Tag"), RefT>>)),
  OperationTraits |-> MapOf(Union(<<Obj("OperationTrait"), RefT>>)),
  MessageTraits |-> MapOf(Union(<<Obj("MessageTrait"), RefT>>)),
  ServerBindings |-> MapOf(Union(<<Obj("ServerBindingsObject"), RefT>>)),
  ChannelBindings |-> MapOf(Union(<<Obj("ChannelBindingsObject"), RefT>>)),
  OperationBindings |-> MapOf(Union(<<Obj("OperationBindingsObject"), RefT>>)),
  MessageBindings |-> MapOf(Union(<<Obj("MessageBindingsObject"), RefT>>)),
  Components |-> Ext(<<
    Opt("schemas", "schemas", Obj("Schemas")),
    Opt("servers", "servers", Obj("Servers")),
    Opt("channels", "channels", Obj("Channels")),
    Opt("operations", "operations", Obj("Operations")),
    Opt("messages", "messages", Obj("Messages")),
    Opt("security_schemes", "securitySchemes", Obj("SecuritySchemes")),
    Opt("server_variables", "serverVariables", Obj("ServerVariables")),
    Opt("parameters", "parameters", Obj("Parameters")),
    Opt("correlation_ids", "correlationIds", Obj("CorrelationIDs")),
    Opt("replies", "replies", Obj("Replies")),
    Opt("reply_addresses", "replyAddresses", Obj("ReplyAddresses")),
    Opt("external_docs", "externalDocs", Obj("ExternalDocs")),
    Opt("tags", "tags", Obj("Tags")),
    Opt("operation_traits", "operationTraits", Obj("OperationTraits")),
    Opt("message_traits", "messageTraits", Obj("MessageTraits")),
    Opt("server_bindings", "serverBindings", Obj("ServerBindings")),
    Opt("channel_bindings", "channelBindings", Obj("ChannelBindings")),
    Opt("operation_bindings", "operationBindings", Obj("OperationBindings")),
    Opt("message_bindings", "messageBindings", Obj("MessageBindings"))>>),
  Contact |-> Ext(<<
    Opt("name", "name", StrT),
    Opt("url", "url", HttpUrlT),
    Opt("email", "email", EmailT)>>),
  License |-> Ext(<<
    Req("name", "name", StrT),
    Opt("url", "url", HttpUrlT)>>),
  Info |-> Ext(<<
    Req("title", "title", StrT),
    Req("version", "version", StrT),
    Opt("description", "description", StrT),
    Opt("terms_of_service", "termsOfService", HttpUrlT),
    Opt("contact", "contact", Obj("Contact")),
    Opt("license", "license", Obj("License")),
    Opt("tags", "tags", ListT(Union(<<Obj("Tag"), RefT>>))),
    Opt("external_docs", "externalDocs", Union(<<Obj("ExternalDocumentation"), RefT>>))>>),
  MessageExample |-> Ext(<<
    Opt("headers", "headers", DictT(AnyT)),
    Opt("payload", "payload", AnyT),
    Opt("name", "name", StrT),
    Opt("summary", "summary", StrT)>>),
  MessageTrait |-> Ext(<<
    Opt("headers", "headers", Union(<<Obj("MultiFormatSchema"), Obj("Schema"), RefT>>)),
    Opt("correlation_id", "correlationId", Union(<<Obj("CorrelationID"), RefT>>)),
    Opt("content_type", "contentType", StrT),
    Opt("name", "name", StrT),
    Opt("title", "title", StrT),
    Opt("summary", "summary", StrT),
    Opt("description", "description", StrT),
    Opt("tags", "tags", ListT(Union(<<Obj("Tag"), RefT>>))),
    Opt("external_docs", "externalDocs", Union(<<Obj("ExternalDocumentation"), RefT>>)),
    Opt("bindings", "bindings", Union(<<Obj("MessageBindingsObject"), RefT>>)),
    Opt("examples", "examples", ListT(Obj("MessageExample")))>>),
  Message |-> Ext(<<
    Opt("headers", "headers", Union(<<Obj("MultiFormatSchema"), Obj("Schema"), RefT>>)),
    Opt("payload", "payload", Union(<<Obj("MultiFormatSchema"), Obj("Schema"), RefT>>)),
    Opt("correlation_id", "correlationId", Union(<<Obj("CorrelationID"), RefT>>)),
    Opt("content_type", "contentType", StrT),
    Opt("name", "name", StrT),
    Opt("title", "title", StrT),
    Opt("summary", "summary", StrT),
    Opt("description", "description", StrT),
    Opt("tags", "tags", ListT(Union(<<Obj("Tag"), RefT>>))),
    Opt("external_docs", "externalDocs", Union(<<Obj("ExternalDocumentation"), RefT>>)),
    Opt("bindings", "bindings", Union(<<Obj("MessageBindingsObject"), RefT>>)),
    Opt("examples", "examples", ListT(Obj("MessageExample"))),
    Opt("traits", "traits", ListT(Union(<<Obj("MessageTrait"), RefT>>)))>>),
  Messages |-> MapOf(Union(<<Obj("Message"), RefT>>)),
  OperationReplyAddress |-> Ext(<<
    Req("location", "location", StrT),
    Opt("description", "description", StrT)>>),
  OperationReply |-> Ext(<<
    Opt("address", "address", Union(<<Obj("OperationReplyAddress"), RefT>>)),
    Opt("channel", "channel", RefT),
    Opt("messages", "messages", ListT(RefT))>>),
  OperationTrait |-> Ext(<<
    Opt("title", "title", StrT),
    Opt("summary", "summary", StrT),
    Opt("description", "description", StrT),
    Opt("security", "security", ListT(Union(<<Obj("SecurityScheme"), RefT>>))),
    Opt("tags", "tags", ListT(Union(<<Obj("Tag"), RefT>>))),
    Opt("external_docs", "externalDocs", Union(<<Obj("ExternalDocumentation"), RefT>>)),
    Opt("bindings", "bindings", Union(<<Obj("OperationBindingsObject"), RefT>>))>>),
  Operation |-> Ext(<<
    Req("action", "action", Lit(<<S("send"), S("receive")>>)),
    Req("channel", "channel", RefT),
    Opt("title", "title", StrT),
    Opt("summary", "summary", StrT),
    Opt("description", "description", StrT),
    Opt("security", "security", ListT(Union(<<Obj("SecurityScheme"), RefT>>))),
    Opt("tags", "tags", ListT(Union(<<Obj("Tag"), RefT>>))),
    Opt("external_docs", "externalDocs", Union(<<Obj("ExternalDocumentation"), RefT>>)),
    Opt("bindings", "bindings", Union(<<Obj("OperationBindingsObject"), RefT>>)),
    Opt("traits", "traits", ListT(Union(<<Obj("OperationTrait"), RefT>>))),
    Opt("messages", "messages", ListT(RefT)),
    Opt("reply", "reply", Union(<<Obj("OperationReply"), RefT>>))>>),
  Operations |-> MapOf(Union(<<Obj("Operation"), RefT>>)),
  Schema |-> Open(<<
    Opt("discriminator", "discriminator", StrT),
    Opt("external_docs", "externalDocs", Union(<<Obj("ExternalDocumentation"), RefT>>)),
    Opt("deprecated", "deprecated", BoolT)>>),
  MultiFormatSchema |-> Open(<<
    Def("schema_format", "schemaFormat", StrT, S("application/vnd.aai.asyncapi;version=3.0.0")),
    Req("schema", "schema", AnyT)>>),
  CorrelationID |-> Ext(<<
    Opt("description", "description", StrT),
    Req("location", "location", RtExprT)>>),
  OAuthFlow |-> Ext(<<
    Opt("authorization_url", "authorizationUrl", UrlT),
    Opt("token_url", "tokenUrl", UrlT),
    Opt("refresh_url", "refreshUrl", UrlT),
    Req("available_scopes", "availableScopes", DictT(StrT))>>),
  OAuthFlows |-> Ext(<<
    Opt("implicit", "implicit", Obj("OAuthFlow")),
    Opt("password", "password", Obj("OAuthFlow")),
    Opt("client_credentials", "clientCredentials", Obj("OAuthFlow")),
    Opt("authorization_code", "authorizationCode", Obj("OAuthFlow"))>>),
  SecurityScheme |-> Ext(<<
    Req("type_", "type", Lit(<<S("apiKey"), S("asymmetricEncryption"), S("gssapi"), S("http"), S("httpApiKey"), S("oauth2"), S("openIdConnect"), S("plain"), S("scramSha256"), S("scramSha512"), S("symmetricEncryption"), S("userPassword"), S("X509")>>)),
    Opt("description", "description", StrT),
    Opt("name", "name", StrT),
    Opt("in_", "in", Lit(<<S("user"), S("password"), S("query"), S("header"), S("cookie")>>)),
    Opt("scheme", "scheme", StrT),
    Opt("bearer_format", "bearerFormat", StrT),
    Opt("flows", "flows", Obj("OAuthFlows")),
    Opt("open_id_connect_url", "openIdConnectUrl", UrlT),
    Opt("scopes", "scopes", ListT(StrT))>>),
  ServerVariable |-> Ext(<<
    Opt("enum", "enum", ListT(StrT)),
    Opt("default", "default", StrT),
    Opt("description", "description", StrT),
    Opt("examples", "examples", ListT(StrT))>>),
  Server |-> Ext(<<
    Req("host", "host", StrT),
    Req("protocol", "protocol", StrT),
    Opt("protocol_version", "protocolVersion", StrT),
    Opt("pathname", "pathname", StrT),
    Opt("description", "description", StrT),
    Opt("title", "title", StrT),
    Opt("summary", "summary", StrT),
    Opt("variables", "variables", DictT(Union(<<Obj("ServerVariable"), RefT>>))),
    Opt("security", "security", ListT(Union(<<Obj("SecurityScheme"), RefT>>))),
    Opt("tags", "tags", ListT(Union(<<Obj("Tag"), RefT>>))),
    Opt("external_docs", "externalDocs", Union(<<Obj("ExternalDocumentation"), RefT>>)),
    Opt("bindings", "bindings", Union(<<Obj("ServerBindingsObject"), RefT>>))>>),
  Servers |-> MapOf(Union(<<Obj("Server"), RefT>>)),
  AMQPServerBindings |-> Closed(<<>>),
  AMQPExchange |-> Closed(<<
    Req("name", "name", StrMax(255)),
    Req("type", "type", Lit(<<S("topic"), S("direct"), S("fanout"), S("default"), S("headers")>>)),
    Opt("durable", "durable", BoolT),
    Opt("auto_delete", "autoDelete", BoolT),
    Opt("vhost", "vhost", StrT)>>),
  AMQPQueue |-> Closed(<<
    Opt("name", "name", StrMax(255)),
    Opt("durable", "durable", BoolT),
    Opt("exclusive", "exclusive", BoolT),
    Opt("auto_delete", "autoDelete", BoolT),
    Opt("vhost", "vhost", StrT)>>),
  AMQPChannelBindings |-> Closed(<<
    Req("is_", "is", Lit(<<S("queue"), S("routingKey")>>)),
    Opt("exchange", "exchange", Obj("AMQPExchange")),
    Opt("queue", "queue", Obj("AMQPQueue")),
    Def("binding_version", "bindingVersion", StrT, S("0.3.0"))>>),
  AMQPOperationBindings |-> Closed(<<
    Opt("expiration", "expiration", IntMin(0)),
    Opt("user_id", "userId", StrT),
    Opt("cc", "cc", ListT(StrT)),
    Opt("priority", "priority", IntT),
    Opt("delivery_mode", "deliveryMode", Lit(<<I(1), I(2)>>)),
    Opt("mandatory", "mandatory", BoolT),
    Opt("bcc", "bcc", ListT(StrT)),
    Opt("timestamp", "timestamp", BoolT),
    Opt("ack", "ack", BoolT),
    Def("binding_version", "bindingVersion", StrT, S("0.3.0"))>>),
  AMQPMessageBindings |-> Closed(<<
    Opt("content_encoding", "contentEncoding", StrT),
    Opt("message_type", "messageType", StrT),
    Def("binding_version", "bindingVersion", StrT, S("0.3.0"))>>),
  AMQP1ServerBindings |-> Closed(<<>>),
  AMQP1ChannelBindings |-> Closed(<<>>),
  AMQP1OperationBindings |-> Closed(<<>>),
  AMQP1MessageBindings |-> Closed(<<>>),
  AnypointMQServerBindings |-> Closed(<<>>),
  AnypointMQChannelBindings |-> Closed(<<
    Opt("destination", "destination", StrT),
    Def("destination_type", "destinationType", Nullable(Lit(<<S("exchange"), S("queue"), S("fifo-queue")>>)), S("queue")),
    Def("binding_version", "bindingVersion", StrT, S("0.1.0"))>>),
  AnypointMQOperationBindings |-> Closed(<<>>),
  AnypointMQMessageBindings |-> Closed(<<
    Opt("headers", "headers", Union(<<Obj("Schema"), RefT>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.1.0"))>>),
  ServerBindingsObject |-> Ext(<<
    Opt("http", "http", Obj("HTTPServerBindings")),
    Opt("ws", "ws", Obj("WebSocketsServerBindings")),
    Opt("kafka", "kafka", Obj("KafkaServerBindings")),
    Opt("anypointmq", "anypointmq", Obj("AnypointMQServerBindings")),
    Opt("amqp", "amqp", Obj("AMQPServerBindings")),
    Opt("amqp1", "amqp1", Obj("AMQP1ServerBindings")),
    Opt("mqtt", "mqtt", Obj("MQTTServerBindings")),
    Opt("mqtt5", "mqtt5", Obj("MQTT5ServerBindings")),
    Opt("nats", "nats", Obj("NATSServerBindings")),
    Opt("jms", "jms", Obj("JMSServerBindings")),
    Opt("sns", "sns", Obj("SNSServerBindings")),
    Opt("solace", "solace", Obj("SolaceServerBindings")),
    Opt("sqs", "sqs", Obj("SQSServerBindings")),
    Opt("stomp", "stomp", Obj("STOMPServerBindings")),
    Opt("redis", "redis", Obj("RedisServerBindings")),
    Opt("mercure", "mercure", Obj("MercureServerBindings")),
    Opt("ibmmq", "ibmmq", Obj("IBMMQServerBindings")),
    Opt("googlepubsub", "googlepubsub", Obj("GooglePubSubServerBindings")),
    Opt("pulsar", "pulsar", Obj("PulsarServerBindings"))>>),
  ChannelBindingsObject |-> Ext(<<
    Opt("http", "http", Obj("HTTPChannelBindings")),
    Opt("ws", "ws", Obj("WebSocketsChannelBindings")),
    Opt("kafka", "kafka", Obj("KafkaChannelBindings")),
    Opt("anypointmq", "anypointmq", Obj("AnypointMQChannelBindings")),
    Opt("amqp", "amqp", Obj("AMQPChannelBindings")),
    Opt("amqp1", "amqp1", Obj("AMQP1ChannelBindings")),
    Opt("mqtt", "mqtt", Obj("MQTTChannelBindings")),
    Opt("mqtt5", "mqtt5", Obj("MQTT5ChannelBindings")),
    Opt("nats", "nats", Obj("NATSChannelBindings")),
    Opt("jms", "jms", Obj("JMSChannelBindings")),
    Opt("sns", "sns", Obj("SNSChannelBindings")),
    Opt("solace", "solace", Obj("SolaceChannelBindings")),
    Opt("sqs", "sqs", Obj("SQSChannelBindings")),
    Opt("stomp", "stomp", Obj("STOMPChannelBindings")),
    Opt("redis", "redis", Obj("RedisChannelBindings")),
    Opt("mercure", "mercure", Obj("MercureChannelBindings")),
    Opt("ibmmq", "ibmmq", Obj("IBMMQChannelBindings")),
    Opt("googlepubsub", "googlepubsub", Obj("GooglePubSubChannelBindings")),
    Opt("pulsar", "pulsar", Obj("PulsarChannelBindings"))>>),
  OperationBindingsObject |-> Ext(<<
    Opt("http", "http", Obj("HTTPOperationBindings")),
    Opt("ws", "ws", Obj("WebSocketsOperationBindings")),
    Opt("kafka", "kafka", Obj("KafkaOperationBindings")),
    Opt("anypointmq", "anypointmq", Obj("AnypointMQOperationBindings")),
    Opt("amqp", "amqp", Obj("AMQPOperationBindings")),
    Opt("amqp1", "amqp1", Obj("AMQP1OperationBindings")),
    Opt("mqtt", "mqtt", Obj("MQTTOperationBindings")),
    Opt("mqtt5", "mqtt5", Obj("MQTT5OperationBindings")),
    Opt("nats", "nats", Obj("NATSOperationBindings")),
    Opt("jms", "jms", Obj("JMSOperationBindings")),
    Opt("sns", "sns", Obj("SNSOperationBindings")),
    Opt("solace", "solace", Obj("SolaceOperationBindings")),
    Opt("sqs", "sqs", Obj("SQSOperationBindings")),
    Opt("stomp", "stomp", Obj("STOMPOperationBindings")),
    Opt("redis", "redis", Obj("RedisOperationBindings")),
    Opt("mercure", "mercure", Obj("MercureOperationBindings")),
    Opt("ibmmq", "ibmmq", Obj("IBMMQOperationBindings")),
    Opt("googlepubsub", "googlepubsub", Obj("GooglePubSubOperationBindings")),
    Opt("pulsar", "pulsar", Obj("PulsarOperationBindings"))>>),
  MessageBindingsObject |-> Ext(<<
    Opt("http", "http", Obj("HTTPMessageBindings")),
    Opt("ws", "ws", Obj("WebSocketsMessageBindings")),
    Opt("kafka", "kafka", Obj("KafkaMessageBindings")),
    Opt("anypointmq", "anypointmq", Obj("AnypointMQMessageBindings")),
    Opt("amqp", "amqp", Obj("AMQPMessageBindings")),
    Opt("amqp1", "amqp1", Obj("AMQP1MessageBindings")),
    Opt("mqtt", "mqtt", Obj("MQTTMessageBindings")),
    Opt("mqtt5", "mqtt5", Obj("MQTT5MessageBindings")),
    Opt("nats", "nats", Obj("NATSMessageBindings")),
    Opt("jms", "jms", Obj("JMSMessageBindings")),
    Opt("sns", "sns", Obj("SNSMessageBindings")),
    Opt("solace", "solace", Obj("SolaceMessageBindings")),
    Opt("sqs", "sqs", Obj("SQSMessageBindings")),
    Opt("stomp", "stomp", Obj("STOMPMessageBindings")),
    Opt("redis", "redis", Obj("RedisMessageBindings")),
    Opt("mercure", "mercure", Obj("MercureMessageBindings")),
    Opt("ibmmq", "ibmmq", Obj("IBMMQMessageBindings")),
    Opt("googlepubsub", "googlepubsub", Obj("GooglePubSubMessageBindings")),
    Opt("pulsar", "pulsar", Obj("PulsarMessageBindings"))>>),
  GooglePubSubServerBindings |-> Closed(<<>>),
  GooglePubSubMessageStoragePolicy |-> Closed(<<
    Opt("allowed_persistence_regions", "allowedPersistenceRegions", ListT(StrT))>>),
  GooglePubSubSchemaSettings |-> Closed(<<
    Opt("encoding", "encoding", Lit(<<S("ENCODING_UNSPECIFIED"), S("JSON"), S("BINARY")>>)),
    Opt("first_revision_id", "firstRevisionId", StrT),
    Opt("last_revision_id", "lastRevisionId", StrT),
    Opt("name", "name", StrT)>>),
  GooglePubSubChannelBindings |-> Closed(<<
    Def("binding_version", "bindingVersion", StrT, S("0.2.0")),
    Opt("labels", "labels", DictT(AnyT)),
    Opt("message_retention_duration", "messageRetentionDuration", StrT),
    Opt("message_storage_policy", "messageStoragePolicy", Obj("GooglePubSubMessageStoragePolicy")),
    Opt("schema_settings", "schemaSettings", Obj("GooglePubSubSchemaSettings"))>>),
  GooglePubSubOperationBindings |-> Closed(<<>>),
  GooglePubSubSchemaDefinition |-> Closed(<<
    Opt("name", "name", StrT)>>),
  GooglePubSubMessageBindings |-> Closed(<<
    Def("binding_version", "bindingVersion", StrT, S("0.2.0")),
    Opt("attributes", "attributes", DictT(AnyT)),
    Opt("ordering_key", "orderingKey", StrT),
    Opt("schema", "schema", Obj("GooglePubSubSchemaDefinition"))>>),
  HTTPServerBindings |-> Closed(<<>>),
  HTTPChannelBindings |-> Closed(<<>>),
  HTTPOperationBindings |-> Closed(<<
    Req("method", "method", Lit(<<S("GET"), S("POST"), S("PUT"), S("PATCH"), S("DELETE"), S("HEAD"), S("OPTIONS"), S("CONNECT"), S("TRACE")>>)),
    Opt("query", "query", Union(<<Obj("Schema"), RefT>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.3.0"))>>),
  HTTPMessageBindings |-> Closed(<<
    Opt("headers", "headers", Union(<<Obj("Schema"), RefT>>)),
    Opt("status_code", "statusCode", IntT),
    Def("binding_version", "bindingVersion", StrT, S("0.3.0"))>>),
  IBMMQServerBindings |-> Closed(<<
    Opt("group_id", "groupId", StrT),
    Opt("ccdt_queue_manager_name", "ccdtQueueManagerName", StrT),
    Opt("cipher_spec", "cipherSpec", StrT),
    Opt("multi_endpoint_server", "multiEndpointServer", BoolT),
    Opt("heart_beat_interval", "heartBeatInterval", IntRange(0, 999999)),
    Def("binding_version", "bindingVersion", StrT, S("0.1.0"))>>),
  IBMMQQueue |-> Closed(<<
    Req("object_name", "objectName", StrMax(48)),
    Def("is_partitioned", "isPartitioned", BoolT, B(FALSE)),
    Def("exclusive", "exclusive", BoolT, B(FALSE))>>),
  IBMMQTopic |-> Closed(<<
    Opt("string", "string", StrMax(10240)),
    Opt("object_name", "objectName", StrMax(48)),
    Def("durable_permitted", "durablePermitted", BoolT, B(TRUE)),
    Def("last_msg_retained", "lastMsgRetained", BoolT, B(FALSE))>>),
  IBMMQChannelBindings |-> Closed(<<
    Def("destination_type", "destinationType", Lit(<<S("topic"), S("queue")>>), S("topic")),
    Opt("queue", "queue", Obj("IBMMQQueue")),
    Opt("topic", "topic", Obj("IBMMQTopic")),
    Opt("max_msg_length", "maxMsgLength", IntRange(0, 104857600)),
    Def("binding_version", "bindingVersion", StrT, S("0.1.0"))>>),
  IBMMQOperationBindings |-> Closed(<<>>),
  IBMMQMessageBindings |-> Closed(<<
    Def("type", "type", Lit(<<S("string"), S("jms"), S("binary")>>), S("string")),
    Opt("headers", "headers", StrT),
    Opt("description", "description", StrT),
    Opt("expiry", "expiry", IntMin(0)),
    Def("binding_version", "bindingVersion", StrT, S("0.1.0"))>>),
  JMSServerBindings |-> Closed(<<
    Req("jms_connection_factory", "jmsConnectionFactory", StrT),
    Opt("properties", "properties", ListT(Obj("Schema"))),
    Opt("client_id", "clientID", StrT),
    Def("binding_version", "bindingVersion", StrT, S("0.0.1"))>>),
  JMSChannelBindings |-> Closed(<<
    Opt("destination", "destination", StrT),
    Opt("destination_type", "destinationType", Lit(<<S("queue"), S("fifo-queue")>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.0.1"))>>),
  JMSOperationBindings |-> Closed(<<>>),
  JMSMessageBindings |-> Closed(<<
    Opt("headers", "headers", Union(<<Obj("Schema"), RefT>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.0.1"))>>),
  KafkaServerBindings |-> Closed(<<
    Opt("schema_registry_url", "schemaRegistryUrl", StrT),
    Opt("schema_registry_vendor", "schemaRegistryVendor", StrT),
    Def("binding_version", "bindingVersion", StrT, S("0.5.0"))>>),
  KafkaTopicConfiguration |-> Open(<<
    Opt("cleanup_policy", "cleanup.policy", ListT(Lit(<<S("delete"), S("compact")>>))),
    Opt("retention_ms", "retention.ms", IntT),
    Opt("retention_bytes", "retention.bytes", IntT),
    Opt("delete_retention_ms", "delete.retention.ms", IntT),
    Opt("max_message_bytes", "max.message.bytes", IntT),
    Opt("confluent_key_schema_validation", "confluent.key.schema.validation", BoolT),
    Opt("confluent_key_subject_name_strategy", "confluent.key.subject.name.strategy", StrT),
    Opt("confluent_value_schema_validation", "confluent.value.schema.validation", BoolT),
    Opt("confluent_value_subject_name_strategy", "confluent.value.subject.name.strategy", StrT)>>),
  KafkaChannelBindings |-> Closed(<<
    Opt("topic", "topic", StrT),
    Opt("partitions", "partitions", IntMin(1)),
    Opt("replicas", "replicas", IntMin(1)),
    Opt("topic_configuration", "topicConfiguration", Obj("KafkaTopicConfiguration")),
    Def("binding_version", "bindingVersion", StrT, S("0.5.0"))>>),
  KafkaOperationBindings |-> Closed(<<
    Opt("group_id", "groupId", Union(<<Obj("Schema"), RefT>>)),
    Opt("client_id", "clientId", Union(<<Obj("Schema"), RefT>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.5.0"))>>),
  KafkaMessageBindings |-> Closed(<<
    Opt("key", "key", Union(<<RefT, Obj("Schema"), DictT(AnyT)>>)),
    Opt("schema_id_location", "schemaIdLocation", StrT),
    Opt("schema_id_payload_encoding", "schemaIdPayloadEncoding", StrT),
    Opt("schema_lookup_strategy", "schemaLookupStrategy", StrT),
    Def("binding_version", "bindingVersion", StrT, S("0.5.0"))>>),
  MercureServerBindings |-> Closed(<<>>),
  MercureChannelBindings |-> Closed(<<>>),
  MercureOperationBindings |-> Closed(<<>>),
  MercureMessageBindings |-> Closed(<<>>),
  MQTTLastWill |-> Closed(<<
    Req("topic", "topic", StrT),
    Req("qos", "qos", Lit(<<I(0), I(1), I(2)>>)),
    Req("message", "message", StrT),
    Req("retain", "retain", BoolT)>>),
  MQTTServerBindings |-> Closed(<<
    Opt("client_id", "clientId", StrT),
    Opt("clean_session", "cleanSession", BoolT),
    Opt("last_will", "lastWill", Obj("MQTTLastWill")),
    Opt("keep_alive", "keepAlive", IntT),
    Opt("session_expiry_interval", "sessionExpiryInterval", Union(<<IntT, Obj("Schema"), RefT>>)),
    Opt("maximum_packet_size", "maximumPacketSize", Union(<<IntT, Obj("Schema"), RefT>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.2.0"))>>),
  MQTTChannelBindings |-> Closed(<<>>),
  MQTTOperationBindings |-> Closed(<<
    Opt("qos", "qos", Lit(<<I(0), I(1), I(2)>>)),
    Opt("retain", "retain", BoolT),
    Opt("message_expiry_interval", "messageExpiryInterval", Union(<<IntT, Obj("Schema"), RefT>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.2.0"))>>),
  MQTTMessageBindings |-> Closed(<<
    Opt("payload_format_indicator", "payloadFormatIndicator", Lit(<<I(0), I(1)>>)),
    Opt("correlation_data", "correlationData", Union(<<Obj("Schema"), RefT>>)),
    Opt("content_type", "contentType", StrT),
    Opt("response_topic", "responseTopic", Union(<<StrT, Obj("Schema"), RefT>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.2.0"))>>),
  MQTT5ServerBindings |-> Closed(<<
    Opt("session_expiry_interval", "sessionExpiryInterval", Union(<<IntT, Obj("Schema"), RefT>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.2.0"))>>),
  MQTT5ChannelBindings |-> Closed(<<>>),
  MQTT5OperationBindings |-> Closed(<<>>),
  MQTT5MessageBindings |-> Closed(<<>>),
  NATSServerBindings |-> Closed(<<>>),
  NATSChannelBindings |-> Closed(<<>>),
  NATSOperationBindings |-> Closed(<<
    Opt("queue", "queue", StrMax(255)),
    Def("binding_version", "bindingVersion", StrT, S("0.1.0"))>>),
  NATSMessageBindings |-> Closed(<<>>),
  PulsarServerBindings |-> Closed(<<
    Def("tenant", "tenant", StrT, S("public")),
    Def("binding_version", "bindingVersion", StrT, S("0.1.0"))>>),
  PulsarRetention |-> Closed(<<
    Def("time", "time", Nullable(IntT), I(0)),
    Def("size", "size", Nullable(IntT), I(0))>>),
  PulsarChannelBindings |-> Closed(<<
    Req("namespace", "namespace", StrT),
    Req("persistence", "persistence", Lit(<<S("persistent"), S("non-persistent")>>)),
    Opt("compaction", "compaction", IntT),
    Opt("geo_replication", "geo-replication", ListT(StrT)),
    Opt("retention", "retention", Obj("PulsarRetention")),
    Opt("ttl", "ttl", IntT),
    Opt("deduplication", "deduplication", BoolT),
    Def("binding_version", "bindingVersion", StrT, S("0.1.0"))>>),
  PulsarOperationBindings |-> Closed(<<>>),
  PulsarMessageBindings |-> Closed(<<>>),
  RedisServerBindings |-> Closed(<<>>),
  RedisChannelBindings |-> Closed(<<>>),
  RedisOperationBindings |-> Closed(<<>>),
  RedisMessageBindings |-> Closed(<<>>),
  SNSServerBindings |-> Closed(<<>>),
  SNSOrdering |-> Closed(<<
    Req("type", "type", Lit(<<S("standard"), S("FIFO")>>)),
    Def("content_based_deduplication", "contentBasedDeduplication", BoolT, B(FALSE))>>),
  SNSStatement |-> Closed(<<
    Req("effect", "effect", Lit(<<S("Allow"), S("Deny")>>)),
    Req("principal", "principal", Union(<<StrT, DictT(Union(<<StrT, ListT(StrT)>>))>>)),
    Req("action", "action", Union(<<StrT, ListT(StrT)>>)),
    Opt("resource", "resource", Union(<<StrT, ListT(StrT)>>)),
    Opt("condition", "condition", Union(<<DictT(AnyT), ListT(DictT(AnyT))>>))>>),
  SNSPolicy |-> Closed(<<
    Req("statements", "statements", ListT(Obj("SNSStatement")))>>),
  SNSChannelBindings |-> Closed(<<
    Req("name", "name", StrT),
    Opt("ordering", "ordering", Obj("SNSOrdering")),
    Opt("policy", "policy", Obj("SNSPolicy")),
    Opt("tags", "tags", DictT(AnyT)),
    Def("binding_version", "bindingVersion", StrT, S("1.0.0"))>>),
  SNSIdentifier |-> Closed(<<
    Opt("url", "url", StrT),
    Opt("email", "email", StrT),
    Opt("phone", "phone", StrT),
    Opt("arn", "arn", StrT),
    Opt("name", "name", StrT)>>),
  SNSDeliveryPolicy |-> Closed(<<
    Opt("min_delay_target", "minDelayTarget", IntT),
    Opt("max_delay_target", "maxDelayTarget", IntT),
    Opt("num_retries", "numRetries", IntT),
    Opt("num_no_delay_retries", "numNoDelayRetries", IntT),
    Opt("num_min_delay_retries", "numMinDelayRetries", IntT),
    Opt("num_max_delay_retries", "numMaxDelayRetries", IntT),
    Opt("backoff_function", "backoffFunction", Lit(<<S("arithmetic"), S("exponential"), S("geometric"), S("linear")>>)),
    Opt("max_receives_per_second", "maxReceivesPerSecond", IntT)>>),
  SNSRedrivePolicy |-> Closed(<<
    Req("dead_letter_queue", "deadLetterQueue", Obj("SNSIdentifier")),
    Opt("max_receive_count", "maxReceiveCount", IntT)>>),
  SNSConsumer |-> Closed(<<
    Req("protocol", "protocol", Lit(<<S("http"), S("https"), S("email"), S("email-json"), S("sms"), S("sqs"), S("application"), S("lambda"), S("firehose")>>)),
    Req("endpoint", "endpoint", Obj("SNSIdentifier")),
    Opt("filter_policy", "filterPolicy", DictT(AnyT)),
    Opt("filter_policy_scope", "filterPolicyScope", Lit(<<S("MessageAttributes"), S("MessageBody")>>)),
    Req("raw_message_delivery", "rawMessageDelivery", BoolT),
    Opt("redrive_policy", "redrivePolicy", Obj("SNSRedrivePolicy")),
    Opt("delivery_policy", "deliveryPolicy", Obj("SNSDeliveryPolicy")),
    Opt("display_name", "displayName", StrT)>>),
  SNSOperationBindings |-> Closed(<<
    Opt("topic", "topic", Obj("SNSIdentifier")),
    Req("consumers", "consumers", ListT(Obj("SNSConsumer"))),
    Opt("delivery_policy", "deliveryPolicy", Obj("SNSDeliveryPolicy")),
    Def("binding_version", "bindingVersion", StrT, S("1.0.0"))>>),
  SNSMessageBindings |-> Closed(<<>>),
  SolaceServerBindings |-> Closed(<<
    Def("binding_version", "bindingVersion", StrT, S("0.4.0")),
    Opt("msg_vpn", "msgVpn", StrT),
    Opt("client_name", "clientName", StrBytes(160))>>),
  SolaceChannelBindings |-> Closed(<<>>),
  SolaceQueue |-> Closed(<<
    Opt("name", "name", StrT),
    Opt("topic_subscriptions", "topicSubscriptions", ListT(StrT)),
    Opt("access_type", "accessType", Lit(<<S("exclusive"), S("nonexclusive")>>)),
    Opt("max_msg_spool_size", "maxMsgSpoolSize", StrT),
    Opt("max_ttl", "maxTtl", StrT)>>),
  SolaceTopic |-> Closed(<<
    Opt("topic_subscriptions", "topicSubscriptions", ListT(StrT))>>),
  SolaceDestination |-> Closed(<<
    Def("binding_version", "bindingVersion", StrT, S("0.4.0")),
    Req("destination_type", "destinationType", Lit(<<S("queue"), S("topic")>>)),
    Def("delivery_mode", "deliveryMode", Lit(<<S("direct"), S("persistent")>>), S("persistent")),
    Opt("queue", "queue", Obj("SolaceQueue")),
    Opt("topic", "topic", Obj("SolaceTopic"))>>),
  SolaceOperationBindings |-> Closed(<<
    Def("binding_version", "bindingVersion", StrT, S("0.4.0")),
    Opt("destinations", "destinations", ListT(Obj("SolaceDestination"))),
    Opt("time_to_live", "timeToLive", Union(<<IntT, Obj("Schema"), RefT>>)),
    Opt("priority", "priority", Union(<<IntRange(0, 255), Obj("Schema"), RefT>>)),
    Opt("dmq_eligible", "dmqEligible", BoolT)>>),
  SolaceMessageBindings |-> Closed(<<>>),
  SQSServerBindings |-> Closed(<<>>),
  SQSStatement |-> Closed(<<
    Req("effect", "effect", Lit(<<S("Allow"), S("Deny")>>)),
    Req("principal", "principal", Union(<<StrT, DictT(Union(<<StrT, ListT(StrT)>>))>>)),
    Req("action", "action", Union(<<StrT, ListT(StrT)>>)),
    Opt("resource", "resource", Union(<<StrT, ListT(StrT)>>)),
    Opt("condition", "condition", Union(<<DictT(AnyT), ListT(DictT(AnyT))>>))>>),
  SQSPolicy |-> Closed(<<
    Req("statements", "Statements", ListT(Obj("SQSStatement")))>>),
  SQSIdentifier |-> Closed(<<
    Opt("arn", "arn", StrT),
    Opt("name", "name", StrT)>>),
  SQSRedrivePolicy |-> Closed(<<
    Req("dead_letter_queue", "deadLetterQueue", Obj("SQSIdentifier")),
    Opt("max_receive_count", "maxReceiveCount", IntT)>>),
  SQSQueue |-> Closed(<<
    Req("name", "name", StrT),
    Req("fifo_queue", "fifoQueue", BoolT),
    Opt("deduplication_scope", "deduplicationScope", Lit(<<S("messageGroup"), S("queue")>>)),
    Opt("fifo_throughput_limit", "fifoThroughputLimit", Lit(<<S("perQueue"), S("perMessageGroupId")>>)),
    Opt("delivery_delay", "deliveryDelay", IntT),
    Opt("visibility_timeout", "visibilityTimeout", IntT),
    Opt("receive_message_wait_time", "receiveMessageWaitTime", IntT),
    Opt("message_retention_period", "messageRetentionPeriod", IntT),
    Opt("redrive_policy", "redrivePolicy", Obj("SQSRedrivePolicy")),
    Opt("policy", "policy", Obj("SQSPolicy")),
    Opt("tags", "tags", DictT(AnyT))>>),
  SQSChannelBindings |-> Closed(<<
    Req("queue", "queue", Obj("SQSQueue")),
    Opt("dead_letter_queue", "deadLetterQueue", Obj("SQSQueue")),
    Def("binding_version", "bindingVersion", StrT, S("0.3.0"))>>),
  SQSOperationBindings |-> Closed(<<
    Req("queues", "queues", ListT(Obj("SQSQueue"))),
    Def("binding_version", "bindingVersion", StrT, S("0.3.0"))>>),
  SQSMessageBindings |-> Closed(<<>>),
  STOMPServerBindings |-> Closed(<<>>),
  STOMPChannelBindings |-> Closed(<<>>),
  STOMPOperationBindings |-> Closed(<<>>),
  STOMPMessageBindings |-> Closed(<<>>),
  WebSocketsServerBindings |-> Closed(<<>>),
  WebSocketsChannelBindings |-> Closed(<<
    Opt("method", "method", Lit(<<S("GET"), S("POST")>>)),
    Opt("query", "query", Union(<<Obj("Schema"), RefT>>)),
    Opt("headers", "headers", Union(<<Obj("Schema"), RefT>>)),
    Def("binding_version", "bindingVersion", StrT, S("0.1.0"))>>),
  WebSocketsOperationBindings |-> Closed(<<>>),
  WebSocketsMessageBindings |-> Closed(<<>>)
])
=============================================================================
