------------------------------ MODULE Builtin -------------------------------
(* The built-in schemas: resources, discovery documents and messages.        *)
EXTENDS Messages

Plain == [n |-> "", t |-> "string", mv |-> FALSE, req |-> FALSE, ce |-> FALSE, hc |-> FALSE,
          canon |-> <<>>, vc |-> FALSE, mut |-> "readWrite", ret |-> "default", uniq |-> "none",
          iss |-> "none", post |-> "", refs |-> <<>>, subs |-> <<>>]
NoFlags == [n |-> ""]
With(a, f) == TLCEval([x \in DOMAIN a |-> IF x \in DOMAIN f /\ x # "n" THEN f[x] ELSE a[x]])
A(n, t, f) == With([Plain EXCEPT !.n = n, !.t = t,
                      !.refs = IF t \in {"external", "uri"} THEN <<t>> ELSE <<>>], f)
C(n, f, subs) == With([Plain EXCEPT !.n = n, !.t = "complex", !.subs = subs], f)

(* attributes common to all messages and resources *)
SchemasA == A("schemas", "uri", [mv |-> TRUE, req |-> TRUE, mut |-> "readOnly", ret |-> "always"])
IdA == A("id", "string", [req |-> TRUE, ce |-> TRUE, mut |-> "readOnly", ret |-> "always", uniq |-> "server", iss |-> "server", post |-> "noBulkId"])
ExternalIdA == A("externalId", "string", [ce |-> TRUE, iss |-> "client"])
MetaA == C("meta", [mut |-> "readOnly", iss |-> "server"], <<
    A("resourceType", "string", [ce |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
    A("created", "dateTime", [mut |-> "readOnly", iss |-> "server"]),
    A("lastModified", "dateTime", [mut |-> "readOnly", iss |-> "server"]),
    A("location", "uri", [mut |-> "readOnly", iss |-> "server"]),
    A("version", "string", [ce |-> TRUE, mut |-> "readOnly", iss |-> "server"])>>)

(* resources *)
UserS == [urn |-> "urn:ietf:params:scim:schemas:core:2.0:User", name |-> "User", plural |-> "Users", res |-> TRUE,
  attrs |-> <<
    SchemasA,
    IdA,
    ExternalIdA,
    MetaA,
    A("userName", "string", [req |-> TRUE, uniq |-> "server"]),
    C("name", NoFlags, <<
      A("formatted", "string", NoFlags),
      A("familyName", "string", NoFlags),
      A("givenName", "string", NoFlags),
      A("middleName", "string", NoFlags),
      A("honorificPrefix", "string", NoFlags),
      A("honorificSuffix", "string", NoFlags)>>),
    A("displayName", "string", NoFlags),
    A("nickName", "string", NoFlags),
    A("profileUrl", "external", NoFlags),
    A("title", "string", NoFlags),
    A("userType", "string", NoFlags),
    A("preferredLanguage", "string", NoFlags),
    A("locale", "string", NoFlags),
    A("timezone", "string", NoFlags),
    A("active", "boolean", NoFlags),
    A("password", "string", [mut |-> "writeOnly", ret |-> "never"]),
    C("emails", [mv |-> TRUE], <<
      A("value", "string", NoFlags),
      A("type", "string", [hc |-> TRUE, canon |-> <<"work", "home", "other">>]),
      A("display", "string", NoFlags),
      A("primary", "boolean", NoFlags)>>),
    C("phoneNumbers", [mv |-> TRUE], <<
      A("value", "string", NoFlags),
      A("type", "string", [hc |-> TRUE, canon |-> <<"work", "home", "mobile", "fax", "pager", "other">>]),
      A("display", "string", NoFlags),
      A("primary", "boolean", NoFlags)>>),
    C("ims", [mv |-> TRUE], <<
      A("value", "string", NoFlags),
      A("type", "string", NoFlags),
      A("display", "string", NoFlags),
      A("primary", "boolean", NoFlags)>>),
    C("photos", [mv |-> TRUE], <<
      A("value", "external", NoFlags),
      A("type", "string", [hc |-> TRUE, canon |-> <<"photo", "thumbnail">>]),
      A("display", "string", NoFlags),
      A("primary", "boolean", NoFlags)>>),
    C("addresses", [mv |-> TRUE], <<
      A("formatted", "string", NoFlags),
      A("locality", "string", NoFlags),
      A("streetAddress", "string", NoFlags),
      A("region", "string", NoFlags),
      A("postalCode", "string", NoFlags),
      A("country", "string", NoFlags),
      A("type", "string", [hc |-> TRUE, canon |-> <<"work", "home", "other">>])>>),
    C("groups", [mv |-> TRUE, mut |-> "readOnly"], <<
      A("value", "string", [mut |-> "readOnly"]),
      A("$ref", "uri", [mut |-> "readOnly"]),
      A("display", "string", [mut |-> "readOnly"]),
      A("type", "string", [hc |-> TRUE, canon |-> <<"direct", "indirect">>, mut |-> "readOnly"])>>),
    C("entitlements", [mv |-> TRUE], <<
      A("value", "string", NoFlags),
      A("display", "string", NoFlags),
      A("type", "string", NoFlags),
      A("primary", "boolean", NoFlags)>>),
    C("roles", [mv |-> TRUE], <<
      A("value", "string", NoFlags),
      A("display", "string", NoFlags),
      A("type", "string", NoFlags),
      A("primary", "boolean", NoFlags)>>),
    C("x509Certificates", [mv |-> TRUE], <<
      A("value", "binary", NoFlags),
      A("display", "string", NoFlags),
      A("type", "string", NoFlags),
      A("primary", "boolean", NoFlags)>>)>>,
  exts |-> <<[urn |-> "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User", attrs |-> <<
    A("employeeNumber", "string", NoFlags),
    A("costCenter", "string", NoFlags),
    A("division", "string", NoFlags),
    A("department", "string", NoFlags),
    A("organization", "string", NoFlags),
    C("manager", NoFlags, <<
      A("value", "string", NoFlags),
      A("$ref", "scim", [refs |-> <<"User">>]),
      A("displayName", "string", [mut |-> "readOnly"])>>)>>]>>]
GroupS == [urn |-> "urn:ietf:params:scim:schemas:core:2.0:Group", name |-> "Group", plural |-> "Groups", res |-> TRUE,
  attrs |-> <<
    SchemasA,
    IdA,
    ExternalIdA,
    MetaA,
    A("displayName", "string", [req |-> TRUE]),
    C("members", [mv |-> TRUE], <<
      A("value", "string", [mut |-> "immutable"]),
      A("$ref", "uri", [mut |-> "immutable"]),
      A("display", "string", [mut |-> "immutable"])>>)>>,
  exts |-> <<>>]

(* discovery documents *)
SchemaS == [urn |-> "urn:ietf:params:scim:schemas:core:2.0:Schema", name |-> "Schema", plural |-> "Schema", res |-> TRUE,
  attrs |-> <<
    SchemasA,
    A("id", "string", [mut |-> "readOnly", iss |-> "server"]),
    ExternalIdA,
    MetaA,
    A("name", "string", [mut |-> "readOnly", iss |-> "server"]),
    A("description", "string", [mut |-> "readOnly", iss |-> "server"]),
    C("attributes", [mv |-> TRUE, mut |-> "readOnly", post |-> "docAttrs"], <<
      A("name", "string", [req |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
      A("type", "string", [req |-> TRUE, hc |-> TRUE, canon |-> <<"string", "integer", "decimal", "boolean", "reference", "dateTime", "binary", "complex">>, vc |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
      A("subAttributes", "unknown", [mut |-> "readOnly", iss |-> "server"]),
      A("multiValued", "boolean", [req |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
      A("description", "string", [mut |-> "readOnly", iss |-> "server"]),
      A("required", "boolean", [req |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
      A("canonicalValues", "unknown", [mv |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
      A("caseExact", "boolean", [mut |-> "readOnly", iss |-> "server"]),
      A("mutability", "string", [req |-> TRUE, hc |-> TRUE, canon |-> <<"readOnly", "readWrite", "immutable", "writeOnly">>, vc |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
      A("returned", "string", [req |-> TRUE, hc |-> TRUE, canon |-> <<"always", "never", "default", "request">>, vc |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
      A("uniqueness", "string", [req |-> TRUE, hc |-> TRUE, canon |-> <<"none", "server", "global">>, vc |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
      A("referenceTypes", "string", [mv |-> TRUE, mut |-> "readOnly", iss |-> "server"])>>)>>,
  exts |-> <<>>]
ResourceTypeS == [urn |-> "urn:ietf:params:scim:schemas:core:2.0:ResourceType", name |-> "ResourceType", plural |-> "ResourceType", res |-> TRUE,
  attrs |-> <<
    SchemasA,
    A("id", "string", [mut |-> "readOnly", iss |-> "server"]),
    ExternalIdA,
    MetaA,
    A("name", "string", [req |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
    A("description", "string", [mut |-> "readOnly", iss |-> "server"]),
    A("endpoint", "uri", [req |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
    A("schema", "string", [req |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
    C("schemaExtensions", [mv |-> TRUE], <<
      A("schema", "string", [req |-> TRUE, mut |-> "readOnly", iss |-> "server"]),
      A("required", "boolean", [req |-> TRUE, mut |-> "readOnly", iss |-> "server"])>>)>>,
  exts |-> <<>>]
ConfigS == [urn |-> "urn:ietf:params:scim:schemas:core:2.0:ServiceProviderConfig", name |-> "ServiceProviderConfig", plural |-> "ServiceProviderConfig", res |-> TRUE,
  attrs |-> <<
    SchemasA,
    A("id", "string", [ce |-> TRUE, mut |-> "readOnly", ret |-> "always", uniq |-> "server", iss |-> "server", post |-> "noBulkId"]),
    ExternalIdA,
    MetaA,
    A("documentationUri", "external", [mut |-> "readOnly"]),
    C("patch", [req |-> TRUE, mut |-> "readOnly"], <<
      A("supported", "boolean", [req |-> TRUE, mut |-> "readOnly"])>>),
    C("bulk", [req |-> TRUE, mut |-> "readOnly"], <<
      A("supported", "boolean", [req |-> TRUE, mut |-> "readOnly"]),
      A("maxOperations", "integer", [req |-> TRUE, mut |-> "readOnly"]),
      A("maxPayloadSize", "integer", [req |-> TRUE, mut |-> "readOnly"])>>),
    C("filter", [req |-> TRUE, mut |-> "readOnly"], <<
      A("supported", "boolean", [req |-> TRUE, mut |-> "readOnly"]),
      A("maxResults", "integer", [req |-> TRUE, mut |-> "readOnly"])>>),
    C("changePassword", [req |-> TRUE, mut |-> "readOnly"], <<
      A("supported", "boolean", [req |-> TRUE, mut |-> "readOnly"])>>),
    C("sort", [req |-> TRUE, mut |-> "readOnly"], <<
      A("supported", "boolean", [req |-> TRUE, mut |-> "readOnly"])>>),
    C("etag", [req |-> TRUE, mut |-> "readOnly"], <<
      A("supported", "boolean", [req |-> TRUE, mut |-> "readOnly"])>>),
    C("authenticationSchemes", [mv |-> TRUE, req |-> TRUE, mut |-> "readOnly"], <<
      A("type", "string", [req |-> TRUE, hc |-> TRUE, canon |-> <<"oauth", "oauth2", "oauthbearertoken", "httpbasic", "httpdigest">>, mut |-> "readOnly"]),
      A("name", "string", [req |-> TRUE, mut |-> "readOnly"]),
      A("description", "string", [req |-> TRUE, mut |-> "readOnly"]),
      A("specUri", "external", [mut |-> "readOnly"]),
      A("documentationUri", "external", [mut |-> "readOnly"])>>)>>,
  exts |-> <<>>]

(* messages *)
ListS == [urn |-> "urn:ietf:params:scim:api:messages:2.0:ListResponse", name |-> "", plural |-> "", res |-> FALSE,
  attrs |-> <<
    SchemasA,
    A("totalResults", "integer", [req |-> TRUE]),
    A("startIndex", "integer", NoFlags),
    A("itemsPerPage", "integer", NoFlags),
    A("Resources", "unknown", NoFlags)>>,
  exts |-> <<>>]
PatchS == [urn |-> "urn:ietf:params:scim:api:messages:2.0:PatchOp", name |-> "", plural |-> "", res |-> FALSE,
  attrs |-> <<
    SchemasA,
    C("Operations", [mv |-> TRUE, req |-> TRUE, post |-> "patchOps"], <<
      A("op", "string", [req |-> TRUE, hc |-> TRUE, canon |-> <<"add", "remove", "replace">>, vc |-> TRUE, post |-> "op"]),
      A("path", "string", [post |-> "path"]),
      A("value", "unknown", NoFlags)>>)>>,
  exts |-> <<>>]
BulkReqS == [urn |-> "urn:ietf:params:scim:api:messages:2.0:BulkRequest", name |-> "", plural |-> "", res |-> FALSE,
  attrs |-> <<
    SchemasA,
    A("failOnErrors", "integer", NoFlags),
    C("Operations", [mv |-> TRUE, req |-> TRUE, post |-> "bulkReq"], <<
      A("method", "string", [req |-> TRUE, hc |-> TRUE, canon |-> <<"GET", "POST", "PATCH", "PUT", "DELETE">>, vc |-> TRUE, post |-> "method"]),
      A("bulkId", "string", NoFlags),
      A("version", "string", NoFlags),
      A("path", "string", [req |-> TRUE]),
      A("data", "unknown", NoFlags)>>)>>,
  exts |-> <<>>]
BulkRespS == [urn |-> "urn:ietf:params:scim:api:messages:2.0:BulkResponse", name |-> "", plural |-> "", res |-> FALSE,
  attrs |-> <<
    SchemasA,
    C("Operations", [mv |-> TRUE, req |-> TRUE, post |-> "bulkResp"], <<
      A("method", "string", [req |-> TRUE, hc |-> TRUE, canon |-> <<"GET", "POST", "PATCH", "PUT", "DELETE">>, vc |-> TRUE, post |-> "method"]),
      A("bulkId", "string", NoFlags),
      A("version", "string", NoFlags),
      A("location", "external", NoFlags),
      A("status", "string", [req |-> TRUE, post |-> "opStatus"]),
      A("response", "unknown", NoFlags)>>)>>,
  exts |-> <<>>]
ErrorS == [urn |-> "urn:ietf:params:scim:api:messages:2.0:Error", name |-> "", plural |-> "", res |-> FALSE,
  attrs |-> <<
    SchemasA,
    A("status", "string", [req |-> TRUE, ret |-> "always", post |-> "errorStatus"]),
    A("scimType", "string", [hc |-> TRUE, canon |-> <<"invalidFilter", "tooMany", "uniqueness", "mutability", "invalidSyntax", "invalidPath", "noTarget", "invalidValue", "invalidVers", "sensitive">>, vc |-> TRUE, ret |-> "always"]),
    A("detail", "string", [ret |-> "always"])>>,
  exts |-> <<>>]
SearchS == [urn |-> "urn:ietf:params:scim:api:messages:2.0:SearchRequest", name |-> "", plural |-> "", res |-> FALSE,
  attrs |-> <<
    SchemasA,
    A("attributes", "string", [mv |-> TRUE, post |-> "reps"]),
    A("excludeAttributes", "string", [mv |-> TRUE, post |-> "reps"]),
    A("filter", "string", [post |-> "filter"]),
    A("sortBy", "string", [post |-> "rep"]),
    A("sortOrder", "string", [hc |-> TRUE, canon |-> <<"ascending", "descending">>]),
    A("startIndex", "integer", NoFlags),
    A("count", "integer", NoFlags)>>,
  exts |-> <<>>]

BuiltinNames == {"User", "Group", "Schema", "ResourceType", "Config",
                 "List", "Patch", "BulkReq", "BulkResp", "Error", "Search"}
BuiltinS == TLCEval(
  [n \in BuiltinNames |->
    CASE n = "User" -> UserS [] n = "Group" -> GroupS [] n = "Schema" -> SchemaS
      [] n = "ResourceType" -> ResourceTypeS [] n = "Config" -> ConfigS
      [] n = "List" -> ListS [] n = "Patch" -> PatchS [] n = "BulkReq" -> BulkReqS
      [] n = "BulkResp" -> BulkRespS [] n = "Error" -> ErrorS [] n = "Search" -> SearchS])

(* ready-made errors and the scimType of each *)
ReadyErrors == [INVALID_FILTER |-> "invalidFilter", TOO_MANY |-> "tooMany", UNIQUENESS |-> "uniqueness", MUTABILITY |-> "mutability",
                INVALID_SYNTAX |-> "invalidSyntax", INVALID_PATH |-> "invalidPath", NO_TARGET |-> "noTarget", INVALID_VALUE |-> "invalidValue",
                INVALID_VERS |-> "invalidVers", SENSITIVE |-> "sensitive"]
=============================================================================
