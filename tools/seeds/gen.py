"""Planted changes of the generator. python3 tools/seeds/gen.py [ID...]"""
import sys
import kit
from kit import doc
WANT = sys.argv[1:]
def gen(id, *a, **k):
    if not WANT or id in WANT:
        kit.gen(id, *a, **k)
M = "progenitor-impl/src/method.rs"
L = "progenitor-impl/src/lib.rs"
T = "progenitor-impl/src/template.rs"
U = "progenitor-impl/src/util.rs"
S = "progenitor-impl/src/to_schema.rs"
C = "progenitor-impl/src/cli.rs"
H = "progenitor-impl/src/httpmock.rs"

STR = {"type": "string"}
OK = {"200": {"description": "", "content": {"application/json": {"schema": STR}}}}
NONE = {"204": {"description": ""}}
def par(name, where, schema=STR, required=None):
    return {"name": name, "in": where, "required": where == "path" if required is None else required, "schema": schema}
def json_(schema):
    return {"description": "", "content": {"application/json": {"schema": schema}}}

gen("g11-path-params-by-length", "G11", [(M, '''                    a_index.cmp(&b_index)
''', '''                    a_name.len().cmp(&b_name.len()).then(a_index.cmp(&b_index))
''')], '''
fn main() {
    let (base, log) = serve(&[]);
    let c = positional::Client::new(&base);
    block(async { c.get("one", "two").await.unwrap() });
    assert_eq!(log.lock().unwrap()[0].line, "GET /a/one/b/two");
}
''', "two path parameters of which the first has the longer name", "positional arguments end up in each other's place",
    doc({"/a/{project}/b/{id}": {"get": {"operationId": "get", "parameters": [par("project", "path"), par("id", "path")], "responses": NONE}}}))

gen("g01-markdown-as-plain", "G01", [(M, '''            "text/plain" | "text/x-markdown" => Ok(Self::Text(String::from(&s[..offset]))),
''', '''            "text/plain" | "text/x-markdown" => Ok(Self::Text("text/plain".to_string())),
''')], '''
fn main() {
    let (base, log) = serve(&[]);
    let c = positional::Client::new(&base);
    block(async { c.put("# x".to_string()).await.unwrap() });
    assert_eq!(log.lock().unwrap()[0].header("content-type"), ["text/x-markdown"]);
}
''', "a request body of the type text/x-markdown", "the body is sent as text/plain",
    doc({"/a": {"put": {"operationId": "put", "requestBody": {"required": True, "content": {"text/x-markdown": {"schema": STR}}}, "responses": NONE}}}))

gen("g02-failed-conversion-unset", "G02", [(M, '''                                        self.#param_name = value.try_into()
                                            .map(Some)
                                            .map_err(|_| #err_msg.to_string());
''', '''                                        self.#param_name = match value.try_into() {
                                            Ok(value) => Ok(Some(value)),
                                            // Keep what was there, if anything.
                                            Err(_) => self.#param_name
                                                .and_then(|value| value.map(Some)
                                                    .ok_or_else(|| #err_msg.to_string())),
                                        };
''')], '''
fn main() {
    let (base, log) = serve(&[]);
    let c = builder::Client::new(&base);
    let r = block(async { c.get().n(5u64).n(-1i64).send().await });
    assert!(matches!(r, Err(builder::Error::InvalidRequest(_))), "{r:?}");
    let r = block(async { c.get().n(5u64).send().await });
    assert_eq!(log.lock().unwrap()[0].line, "GET /a?n=5");
}
''', "an optional parameter set twice, the second time to a value that does not convert", "the refused value is silently replaced by the earlier one",
    doc({"/a": {"get": {"operationId": "get", "parameters": [par("n", "query", {"type": "integer", "format": "uint32", "minimum": 0})], "responses": NONE}}}), ["builder"])

gen("g02-body-map-forgets-error", "G02", [(M, '''                                        self.body = self.body.map(f);
''', '''                                        self.body = Ok(f(self.body.unwrap_or_default()));
''')], '''
fn main() {
    let (base, log) = serve(&[]);
    let c = builder::Client::new(&base);
    struct Bad;
    impl std::convert::TryFrom<Bad> for builder::types::Thing { type Error = String; fn try_from(_: Bad) -> Result<Self, String> { Err("bad".into()) } }
    let r = block(async { c.put().body(Bad).body_map(|b| b.name("x".to_string())).send().await });
    assert!(matches!(r, Err(builder::Error::InvalidRequest(_))), "{r:?}");
    let r = block(async { c.put().body_map(|b| b.name("x".to_string())).send().await });
    assert_eq!(log.lock().unwrap()[0].body, "{\\"name\\":\\"x\\"}");
}
''', "a body that does not convert, followed by body_map", "the refused body is dropped and a default one is sent",
    doc({"/a": {"put": {"operationId": "put", "requestBody": {"required": True, "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}}, "responses": NONE}}},
        {"Thing": {"type": "object", "required": ["name"], "properties": {"name": STR}}}), ["builder"])

ERR = {"type": "object", "required": ["message"], "properties": {"message": STR}}
gen("g03-default-lost-after-5xx", "G03", [(M, '''                OperationResponse {
                    status_code: OperationResponseStatus::Range(2),
                    ..
                },
                OperationResponse {
                    status_code: OperationResponseStatus::Default,
''', '''                OperationResponse {
                    status_code: OperationResponseStatus::Range(_),
                    ..
                },
                OperationResponse {
                    status_code: OperationResponseStatus::Default,
''')], '''
fn main() {
    for (s, b) in [(503, true), (404, true)] {
        let (base, _) = serve(&[&answer(s, "{\\"message\\":\\"m\\"}")]);
        let c = positional::Client::new(&base);
        match block(async { c.get().await }) {
            Err(positional::Error::ErrorResponse(r)) => assert_eq!(r.message, "m"),
            e => panic!("{s}: {e:?}"),
        }
    }
}
''', "responses for both 5XX and default, and an answer that only the latter covers", "the answer is reported as unexpected",
    doc({"/a": {"get": {"operationId": "get", "responses": {"2XX": json_({"$ref": "#/components/schemas/Err"}), "5XX": json_({"$ref": "#/components/schemas/Err"}), "default": json_({"$ref": "#/components/schemas/Err"})}}}}, {"Err": ERR}))

gen("g03-json-prefix", "G03", [(M, '''                        (x == "application/json" || x.starts_with("application/json;")).then_some(v)
''', '''                        x.starts_with("application/json").then_some(v)
''')], '''
fn main() {
    use futures::StreamExt;
    let (base, _) = serve(&["HTTP/1.1 200 R\\r\\nconnection: close\\r\\ncontent-length: 7\\r\\n\\r\\n\\x1e\\"a\\"\\n\\x1e\\n"]);
    let c = positional::Client::new(&base);
    let n = block(async { let r: positional::ResponseValue<positional::ByteStream> = c.get().await.unwrap(); let mut s = r.into_inner_stream(); let mut n = 0; while let Some(x) = s.next().await { n += x.unwrap().len(); } n });
    assert_eq!(n, 7);
}
''', "a response of the type application/json-seq", "the stream of records is decoded as one value",
    doc({"/a": {"get": {"operationId": "get", "responses": {"200": {"description": "", "content": {"application/json-seq": {"schema": STR}}}}}}}))

PAGE = {"Page": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": STR}, "next_page": {"type": "string", "nullable": True}}}}
PAGED = {"get": {"operationId": "get", "x-dropshot-pagination": {"required": []}, "parameters": [par("limit", "query", {"type": "integer", "format": "uint32", "minimum": 1, "nullable": True}), par("page_token", "query", {"type": "string", "nullable": True}), par("q", "query")], "responses": {"200": json_({"$ref": "#/components/schemas/Page"})}}}
gen("g04-empty-page-ends", "G04", [(M, '''                                    if #state_ident.is_none() {
''', '''                                    if #state_ident.as_deref().map_or(true, str::is_empty) {
''')], '''
fn main() {
    use futures::TryStreamExt;
    for t in ["x", " ", ""] {
        let (base, log) = serve(&[&answer(200, &serde_json::json!({"items": ["a"], "next_page": t}).to_string()), &answer(200, "{\\"items\\":[\\"b\\"]}")]);
        let c = positional::Client::new(&base);
        let v: Vec<String> = block(async { c.get_stream(None, None).try_collect().await.unwrap() });
        assert_eq!(v, ["a", "b"], "{t:?}");
    }
}
''', "a page whose token for the next page is the empty string", "the remaining pages are not delivered", doc({"/a": PAGED}, PAGE))

gen("g04-builder-short-page", "G04", [(M, '''                                            Some((
                                                futures::stream::iter(
                                                    page.items
                                                ).map(Ok),
                                                (page.next_page, next),
''', '''                                            let more = !page.items.is_empty();
                                            Some((
                                                futures::stream::iter(
                                                    page.items
                                                ).map(Ok),
                                                (page.next_page.filter(|_| more), next),
''')], '''
fn main() {
    use futures::TryStreamExt;
    let p = |items: &[&str], t: Option<&str>| answer(200, &serde_json::json!({"items": items, "next_page": t}).to_string());
    let (base, log) = serve(&[&p(&["a"], Some("1")), &p(&[], Some("2")), &p(&["b"], None)]);
    let c = builder::Client::new(&base);
    let v: Vec<String> = block(async { c.get().stream().try_collect().await.unwrap() });
    assert_eq!(v, ["a", "b"]);
}
''', "a later page that has no items but a token for a next page", "the builder's stream ends there", doc({"/a": PAGED}, PAGE), ["builder"])

def paged(**k):
    o = {"get": {"operationId": "get", "x-dropshot-pagination": {"required": []}, "parameters": [par("limit", "query", {"type": "integer", "format": "uint32", "minimum": 1, "nullable": True}), par("page_token", "query", {"type": "string", "nullable": True}), par("q", "query")], "responses": {"200": json_({"$ref": "#/components/schemas/Page"})}}}
    o["get"].update(k)
    return o
PAGED_RS = '''
const PAGE: &str = r##"%s"##;
fn has_stream(paths: Value, schemas: Value) -> bool {
    let c = generate(&settings(false, false), &doc(paths, schemas)).unwrap();
    assert!(c.contains("fn get ("));
    c.contains("fn get_stream")
}
'''
def paged_main(cases):
    import json
    return "".join(f'''
    assert_eq!(has_stream(serde_json::from_str(r##"{json.dumps(p)}"##).unwrap(), serde_json::from_str(r##"{json.dumps(s)}"##).unwrap()), {str(w).lower()});
''' for p, s, w in cases)
def page(**more):
    p = {"Page": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": STR}, "next_page": {"type": "string", "nullable": True}}}}
    p["Page"]["properties"].update(more)
    return p
HAS = '''
fn has_stream(paths: Value, schemas: Value) -> bool {
    let c = generate(&settings(false, false), &doc(paths, schemas)).unwrap();
    assert!(c.contains("fn get"));
    c.contains("fn get_stream")
}
fn main() {%s}
'''
gen("g05-limit-anywhere", "G05", [(M, '''                        | ("limit", OperationParameterKind::Query(false))
''', '''                        | ("limit", _)
''')], HAS % paged_main([({"/a": paged()}, page(), True),
    ({"/a": paged(parameters=[par("limit", "header", {"type": "integer"}), par("page_token", "query", {"type": "string", "nullable": True})])}, page(), False)]),
    "a parameter named limit that is not a query parameter", "operations without a limit query parameter are offered as streams")
gen("g05-extra-page-fields", "G05", [(M, '''        if properties.len() != 2 {
''', '''        if properties.len() < 2 || !properties.contains_key("items") {
''')], HAS % paged_main([({"/a": paged()}, page(), True), ({"/a": paged()}, page(total={"type": "integer"}), False)]),
    "a page with a further property", "the stream loses the page's further data; the operation is not eligible")

HOOKS = '''
        s.with_inner_type("crate::Inner".parse().unwrap()).with_post_hook("crate::post".parse().unwrap()).with_post_hook_async("crate::post_async".parse().unwrap());
'''
# (Changes inside of the hooks' own template are left out: a statement that
# does nothing put before them by vcheck lands inside of a call chain.)
gen("g06-async-replaces", "G06", [(L, '''        self.post_hook_async = Some(post_hook);
''', '''        // The asynchronous hook supersedes the other.
        self.post_hook = None;
        self.post_hook_async = Some(post_hook);
''')], '''
#[derive(Clone, Debug)]
pub struct Inner(Arc<Mutex<Vec<String>>>);
pub fn post(i: &Inner, r: &reqwest::Result<reqwest::Response>) { i.0.lock().unwrap().push(format!("post")) }
pub async fn post_async(i: &Inner, r: &reqwest::Result<reqwest::Response>) -> Result<(), String> { i.0.lock().unwrap().push(format!("async")); Ok(()) }
fn main() {
    let inner = Inner(Default::default());
    let c = positional::Client::new(&serve(&[&answer(200, "\\"x\\"")]).0, inner.clone());
    block(async { c.get().await.unwrap() });
    assert_eq!(*inner.0.lock().unwrap(), ["post", "async"]);
}
''', "both kinds of post-hooks configured", "only the asynchronous one is run", doc({"/a": {"get": {"operationId": "get", "responses": OK}}}), settings=HOOKS)

gen("g07-url-captured", "G07", [(M, '''        let url_ident = unique_ident_from("url", &param_names);
''', '''        let url_ident = format_ident!("url");
''')], '''
fn main() {
    let (base, log) = serve(&[]);
    let c = positional::Client::new(&base);
    block(async { c.get(None, "x").await.unwrap(); c.get(Some("b"), "x").await.unwrap(); });
    let l: Vec<_> = log.lock().unwrap().iter().map(|r| r.line.clone()).collect();
    assert_eq!(l, ["GET /a?url=x", "GET /a?a=b&url=x"]);
}
''', "a query parameter named url", "the request's own URL is sent as the parameter's value",
    doc({"/a": {"get": {"operationId": "get", "parameters": [par("url", "query", required=True), par("a", "query")], "responses": NONE}}}))
gen("g07-keyword-list", "G07", [(U, '''    if syn::parse_str::<syn::Ident>(&out).is_ok() {
        out
    } else {
        format!("{}_", out)
    }
''', '''    match out.as_str() {
        "as" | "async" | "await" | "break" | "const" | "continue" | "crate" | "dyn" | "else"
        | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop"
        | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return" | "self" | "Self"
        | "static" | "struct" | "super" | "trait" | "true" | "type" | "unsafe" | "use"
        | "where" | "while" | "_" => format!("{}_", out),
        _ => out,
    }
''')], '''
fn main() {
    let (base, log) = serve(&[]);
    let c = positional::Client::new(&base);
    block(async { c.get("x", "y").await.unwrap() });
    assert_eq!(log.lock().unwrap()[0].line, "GET /a?final=x&type=y");
}
''', "a parameter with the name of a keyword that is only reserved", "the client does not compile",
    doc({"/a": {"get": {"operationId": "get", "parameters": [par("final", "query", required=True), par("type", "query", required=True)], "responses": NONE}}}))

gen("g08-trailing-slash", "G08", [(T, '''        State::Constant => components.push(Component::Constant(a)),
''', '''        State::Constant => {
            // A slash at the end is redundant.
            if a != "/" || components.is_empty() {
                components.push(Component::Constant(a))
            }
        }
''')], '''
fn main() {
    let (base, log) = serve(&[]);
    let c = positional::Client::new(&base);
    block(async { c.root().await.unwrap(); c.get("x").await.unwrap(); c.sub("y").await.unwrap(); });
    let l: Vec<_> = log.lock().unwrap().iter().map(|r| r.line.clone()).collect();
    assert_eq!(l, ["GET /", "GET /a/x/", "GET /a/y/b/"]);
}
''', "a template that ends in a parameter followed by a slash", "the slash is not part of the request",
    doc({"/": {"get": {"operationId": "root", "responses": NONE}}, "/a/{id}/": {"get": {"operationId": "get", "parameters": [par("id", "path")], "responses": NONE}}, "/a/{id}/b/": {"get": {"operationId": "sub", "parameters": [par("id", "path")], "responses": NONE}}}))
gen("g08-nested-brace", "G08", [(T, '''                    if a.contains('/') || a.contains('{') {
''', '''                    if a.contains('/') || a.starts_with('{') {
''')], '''
fn main() {
    for (p, n, ok) in [("/a/{b}", "b", true), ("/a/{b/c}", "b/c", false), ("/a/{{b}", "{b", false), ("/a/{b{c}", "b{c", false)] {
        let o = json!({"operationId": "op", "parameters": [{"name": n, "in": "path", "required": true, "schema": {"type": "string"}}], "responses": {"204": {"description": ""}}});
        assert_eq!(generate(&settings(false, false), &doc(json!({p: {"get": o}}), json!({}))).is_ok(), ok, "{p}");
    }
}
''', "an opening brace inside of a parameter's name", "a malformed template is accepted")

gen("g09-text-length", "G09", [(M, '''                                    format: openapiv3::VariantOrUnknownOrEmpty::Empty,
                                    pattern: None,
                                    enumeration,
                                    min_length: None,
                                    max_length: None,
''', '''                                    format: openapiv3::VariantOrUnknownOrEmpty::Empty,
                                    pattern: None,
                                    enumeration,
                                    min_length: None,
                                    ..
''')], '''
fn main() {
    for (s, ok) in [(json!({"type": "string"}), true), (json!({"type": "string", "minLength": 1}), false), (json!({"type": "string", "maxLength": 9}), false)] {
        let o = json!({"operationId": "op", "requestBody": {"required": true, "content": {"text/plain": {"schema": s}}}, "responses": {"204": {"description": ""}}});
        assert_eq!(generate(&settings(false, false), &doc(json!({"/a": {"put": o}}), json!({}))).is_ok(), ok, "{s}");
    }
}
''', "a text body with a maximum length", "the document is accepted and the limit silently ignored")
gen("g09-cookies-ignored", "G09", [(M, '''            .values()
            .map(|parameter| {
''', '''            .values()
            // The HTTP client looks after cookies.
            .filter(|parameter| {
                parameter.parameter_data_ref().required
                    || !matches!(parameter, openapiv3::Parameter::Cookie { .. })
            })
            .map(|parameter| {
''')], '''
fn main() {
    for r in [true, false] {
        let o = json!({"operationId": "op", "parameters": [{"name": "n", "in": "cookie", "required": r, "schema": {"type": "string"}}], "responses": {"204": {"description": ""}}});
        assert!(generate(&settings(false, false), &doc(json!({"/a": {"put": o}}), json!({}))).is_err(), "{r}");
    }
}
''', "an optional cookie parameter", "the document is accepted although the parameter cannot be given")

gen("g10-one-hop", "G10", [(U, '''                parameters
                    .get(key)
                    .unwrap_or_else(|| panic!("key {} is missing", key))
                    .item(components)
''', '''                // Components hold items; those that do not could be circular.
                parameters
                    .get(key)
                    .unwrap_or_else(|| panic!("key {} is missing", key))
                    .as_item()
                    .ok_or_else(|| {
                        crate::Error::UnexpectedFormat(format!("{} is a reference", key))
                    })
''')], '''
fn main() {
    let o = |p: Value| json!({"operationId": "op", "parameters": [p], "responses": {"204": {"description": ""}}});
    let n = json!({"name": "n", "in": "query", "schema": {"type": "string"}});
    let with = |p: Value| { let mut d = doc(json!({"/a": {"get": o(p)}}), json!({})); d["components"]["parameters"] = json!({"N": n, "M": {"$ref": "#/components/parameters/N"}}); generate(&settings(false, false), &d) };
    let direct = with(n.clone());
    assert!(direct.is_ok());
    assert_eq!(with(json!({"$ref": "#/components/parameters/N"})), direct);
    assert_eq!(with(json!({"$ref": "#/components/parameters/M"})), direct);
}
''', "a reference to a component that is itself a reference", "the document is refused")

gen("g11-hashed-traits", "G11", [(M, '''        let mut ext = BTreeMap::new();
''', '''        let mut ext = std::collections::HashMap::new();
''')], '''
fn main() {
    let o = |i: usize| json!({"operationId": format!("op{i}"), "tags": [format!("t{}", i % 5), "all"], "responses": {"204": {"description": ""}}});
    let paths: serde_json::Map<String, Value> = (0..9).map(|i| (format!("/a{i}"), json!({"get": o(i)}))).collect();
    let d = doc(paths.into(), json!({}));
    let first = generate(&settings(true, true), &d).unwrap();
    for _ in 0..30 { assert!(generate(&settings(true, true), &d).unwrap() == first); }
}
''', "several tags, in the style with a trait per tag", "the order of the traits changes from run to run")

gen("g15-url-safe-key", "G15", [(M, '''                        &::base64::engine::general_purpose::STANDARD,
''', '''                        &::base64::engine::general_purpose::URL_SAFE,
''')], '''
fn main() {
    use base64::Engine;
    let up = "HTTP/1.1 101 S\\r\\nconnection: upgrade\\r\\nupgrade: websocket\\r\\n\\r\\n";
    let (base, log) = serve(&[up; 40]);
    let c = positional::Client::new(&base);
    block(async { for _ in 0..40 { let _ = c.get().await; } });
    for r in log.lock().unwrap().iter() {
        let k = r.header("sec-websocket-key");
        assert_eq!(base64::engine::general_purpose::STANDARD.decode(&k[0]).unwrap().len(), 16);
    }
}
''', "a key that uses one of the two letters in which the alphabets differ", "servers refuse about half of the handshakes",
    doc({"/a": {"get": {"operationId": "get", "x-dropshot-websocket": {}, "responses": {"default": {"description": "", "content": {"*/*": {"schema": {}}}}}}}}))


X = "progenitor-macro/src/lib.rs"
K = "cargo-progenitor/src/main.rs"

gen("g12-null-first-enum", "G12", [(S, """                && enumeration.len() == 1
                && enumeration[0] == serde_json::Value::Null
""", """                && enumeration.first() == Some(&serde_json::Value::Null)
""")], """
fn main() {
    let convert = |s: Value| {
        let d = doc(json!({}), json!({"T": s}));
        let mut g = Generator::new(&settings(false, false));
        g.generate_tokens(&spec(d)).unwrap();
        format!("{:?}", g.get_type_space().record())
    };
    for v in [json!(["word"]), json!(["word", null]), json!([null, "word"])] {
        let c = convert(json!({"enum": v}));
        assert!(c.contains("word"), "{v}: {c}");
    }
}
""", "an enumeration without a type whose first value is null", "the other values are forgotten: only null is of the type")

gen("g12-alone-in-all-of", "G12", [(S, """            openapiv3::SchemaKind::AllOf { all_of } => oneof_nullable_wrapper(
                schemars::schema::SchemaObject {
                    metadata,
                    subschemas: Some(Box::new(schemars::schema::SubschemaValidation {
                        all_of: Some(all_of.convert()),
""", """            // All of one is that one.
            openapiv3::SchemaKind::AllOf { all_of }
                if matches!(all_of[..], [openapiv3::ReferenceOr::Item(_)]) && metadata.is_none() =>
            {
                let only: schemars::schema::Schema = all_of[0].convert();
                only.into_object()
            }

            openapiv3::SchemaKind::AllOf { all_of } => oneof_nullable_wrapper(
                schemars::schema::SchemaObject {
                    metadata: metadata.clone(),
                    subschemas: Some(Box::new(schemars::schema::SubschemaValidation {
                        all_of: Some(all_of.convert()),
""")], """
fn main() {
    let convert = |s: Value| {
        let d = doc(json!({}), json!({"T": s}));
        let mut g = Generator::new(&settings(false, false));
        g.generate_tokens(&spec(d)).unwrap();
        format!("{:?}", g.get_type_space().record())
    };
    let o = json!({"type": "object", "properties": {"a": {"type": "string"}}});
    let n = |s: &str| s.contains("Null");
    assert!(!n(&convert(json!({"allOf": [o]}))));
    assert!(n(&convert(json!({"allOf": [o], "nullable": true}))));
}
""", "a nullable schema that combines a single schema in place", "null is no longer of the type")

gen("g13-first-page-by-own-name", "G13", [(C, """                .map_or(false, |required| required.contains(&param.api_name));
""", """                .map_or(false, |required| required.contains(&param.name));
""")], """
fn main() {
    let o = json!({"operationId": "get", "x-dropshot-pagination": {"required": ["sortBy"]}, "parameters": [
        {"name": "limit", "in": "query", "schema": {"type": "integer", "format": "uint32", "minimum": 1, "nullable": true}},
        {"name": "page_token", "in": "query", "schema": {"type": "string", "nullable": true}},
        {"name": "sortBy", "in": "query", "schema": {"type": "string"}}],
        "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Page"}}}}}});
    let d = spec(doc(json!({"/a": {"get": o}}), json!({"Page": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string", "nullable": true}}}})));
    let mut g = Generator::new(&settings(true, false));
    g.generate_tokens(&d).unwrap();
    let c: String = g.cli(&d, "client").unwrap().to_string().split_whitespace().collect();
    let at = c.find("Arg::new(\\"sort-by\\")").unwrap();
    let arg = &c[at..at + c[at..].find(".arg(").unwrap_or(300)];
    assert!(arg.contains("required(true)"), "{arg}");
}
""", "a parameter, with a name in camel case, that the first page requires", "the argument is no longer required")

gen("g14-absent-by-prefix", "G14", [(H, """                                                    |(key, _)| key == #name)
""", """                                                    |(key, _)| key.starts_with(#name))
""")], """
mod mock { include!(concat!(env!("OUT_DIR"), "/mock.rs")); }
fn main() {
    use httpmock::{HttpMockRequest, MockServer};
    let m = mock::MockServerExt::get(&MockServer::start(), |when, then| { when.n(None::<&str>); then.no_content(); });
    for (t, want) in [("/a", true), ("/a?n=1", false), ("/a?name=1", true)] {
        assert_eq!(m.matches(&HttpMockRequest::new("GET", t, vec![], vec![])), want, "{t}");
    }
}
""", "a parameter to be absent, and another whose name begins with its name", "requests that give the other are not matched",
    doc({"/a": {"get": {"operationId": "get", "parameters": [par("n", "query"), par("name", "query")], "responses": NONE}}}), settings="",
    extra='std::fs::write(out.join("mock.rs"), g.httpmock(&spec, "crate::positional").unwrap().to_string()).unwrap();', deps='httpmock = { path = "../shims/httpmock" }\n', shims="shims/httpmock")
gen("g14-body-contains", "G14", [(H, """                                Self(self.0.body(value))
""", """                                Self(self.0.body_contains(value))
""")], """
mod mock { include!(concat!(env!("OUT_DIR"), "/mock.rs")); }
fn main() {
    use httpmock::{HttpMockRequest, MockServer};
    let m = mock::MockServerExt::put(&MockServer::start(), |when, then| { when.body("one".to_string()); then.no_content(); });
    for (t, want) in [("one", true), ("none", false), ("two", false)] {
        assert_eq!(m.matches(&HttpMockRequest::new("PUT", "/a", vec![("content-type".into(), "text/plain".into())], t.into())), want, "{t}");
    }
}
""", "a text body that contains the one expected", "requests with other bodies are matched",
    doc({"/a": {"put": {"operationId": "put", "requestBody": {"required": True, "content": {"text/plain": {"schema": STR}}}, "responses": NONE}}}),
    extra='std::fs::write(out.join("mock.rs"), g.httpmock(&spec, "crate::positional").unwrap().to_string()).unwrap();', deps='httpmock = { path = "../shims/httpmock" }\n', shims="shims/httpmock")

gen("g18-first-crate-wins", "G18", [(L, """        self.crates.insert(
            crate_name.to_string(),
            CrateSpec {
                version,
                rename: rename.cloned(),
            },
        );
""", """        self.crates
            .entry(crate_name.to_string())
            .or_insert(CrateSpec {
                version,
                rename: rename.cloned(),
            });
""")], """
fn main() {
    let v = |s: &str| CrateVers::parse(s).unwrap();
    let d = doc(json!({}), json!({}));
    let with = |vs: &[&str]| { let mut s = settings(false, false); for x in vs { s.with_crate("ext", v(x), None); } generate(&s, &d).unwrap() };
    assert!(with(&["1.0.0"]) != with(&["2.0.0"]));
    assert!(with(&["1.0.0", "2.0.0"]) == with(&["2.0.0"]));
}
""", "the same crate given twice", "the earlier version stays in effect")

gen("g19-terms-need-description", "G19", [(L, """                s.push_str("\\n\\n");
                s.push_str(ss);
            }
            if let Some(ss) = &spec.info.terms_of_service {
                s.push_str("\\n\\n");
                s.push_str(ss);
            }
""", """                s.push_str("\\n\\n");
                s.push_str(ss);
                if let Some(ss) = &spec.info.terms_of_service {
                    s.push_str("\\n\\n");
                    s.push_str(ss);
                }
            }
""")], """
fn main() {
    for description in [None, Some("What it is.")] {
        let mut d = doc(json!({}), json!({}));
        d["info"]["termsOfService"] = json!("http://terms");
        if let Some(x) = description { d["info"]["description"] = json!(x); }
        let c = generate(&settings(false, false), &d).unwrap();
        assert!(c.contains("http://terms"), "{description:?}");
    }
}
""", "terms of service in a document without a description", "the client's documentation does not name them")

gen("g20-slashes-trimmed", "G20", [(L, """                        baseurl: baseurl.to_string(),
""", """                        baseurl: baseurl.trim_end_matches('/').to_string(),
""")], """
fn main() {
    let (base, log) = serve(&[]);
    for (b, want) in [(base.clone(), "GET /a"), (format!("{base}/v1"), "GET /v1/a"), (format!("{base}/v1/"), "GET /v1//a")] {
        let c = positional::Client::new(&b);
        assert_eq!(c.baseurl(), &b);
        block(async { c.get().await.unwrap() });
        assert_eq!(log.lock().unwrap().last().unwrap().line, want);
    }
}
""", "a base URL that ends in a slash", "the client does not keep the base URL it was given",
    doc({"/a": {"get": {"operationId": "get", "responses": NONE}}}))

gen("g15-key-per-client", "G15", [(M, """                        ::rand::random::<[u8; 16]>(),
""", """                        *{
                            // Made once: drawing one is slow.
                            static KEY: ::std::sync::OnceLock<[u8; 16]> = ::std::sync::OnceLock::new();
                            KEY.get_or_init(::rand::random)
                        },
""")], """
fn main() {
    let up = "HTTP/1.1 101 S\\r\\nconnection: upgrade\\r\\nupgrade: websocket\\r\\n\\r\\n";
    let (base, log) = serve(&[up; 3]);
    let c = positional::Client::new(&base);
    block(async { for _ in 0..3 { let _ = c.get().await; } });
    let keys: std::collections::BTreeSet<String> = log.lock().unwrap().iter().map(|r| r.header("sec-websocket-key")[0].clone()).collect();
    assert_eq!(keys.len(), 3, "{keys:?}");
}
""", "several connections", "all handshakes use the same key",
    doc({"/a": {"get": {"operationId": "get", "x-dropshot-websocket": {}, "responses": {"default": {"description": "", "content": {"*/*": {"schema": {}}}}}}}}))

PET = """{"openapi": "3.0.3", "info": {"title": "t", "version": "1.2.3"}, "paths": {"/a": {"get": {"operationId": "get", "parameters": [%s], "responses": {"200": {"description": "", "content": {"application/json": {"schema": %s}}}}}}}}"""
OBJ = '{"type": "object", "properties": {%s}}'
def tool(id, *a, **k):
    if not WANT or id in WANT:
        kit.tool(id, *a, **k)
TIME = '"at": {"type": "string", "format": "date-time"}'
UUID = '"id": {"type": "string", "format": "uuid"}'
tool("g17-either-or", "G17", [(K, """            DEPENDENCIES.uuid
        ));
    }
    if type_space.uses_chrono() {
""", """            DEPENDENCIES.uuid
        ));
    } else if type_space.uses_chrono() {
""")], "cargo progenitor", ["impl", "cargo-progenitor"], """
cargo build --offline -q -p cargo-progenitor || exit 3
try() { # document, dependencies
  "$d/target/debug/cargo-progenitor" progenitor -i "$here/$1.json" -o "$d/out-$1" -n made -v 0.1.0 >"$d/log" || exit 4
  for w in $2; do grep -q "^$w = " "$d/out-$1/Cargo.toml" || { echo "$1: $w is missing"; cat "$d/out-$1/Cargo.toml"; exit 1; }; done
}
try uuid uuid && try time chrono && try both "uuid chrono"
""", "a description that uses both dates and UUIDs", "the crate made for it lacks a dependency and does not compile",
    files={"uuid.json": PET % ("", OBJ % UUID), "time.json": PET % ("", OBJ % TIME), "both.json": PET % ("", OBJ % (UUID + "," + TIME))})
tool("g17-dotted-input", "G17", [(K, """    let mut f = File::open(p.clone())?;
    let api = match serde_json::from_reader(f) {
        Ok(json_value) => json_value,
        _ => {
            f = File::open(p)?;
            serde_yaml::from_reader(f)?
        }
    };
    Ok(api)
""", """    let f = File::open(p.clone())?;
    // Whatever is not named otherwise is JSON.
    match p.as_ref().extension().and_then(|e| e.to_str()) {
        Some("yaml" | "yml") => Ok(serde_yaml::from_reader(f)?),
        _ => Ok(serde_json::from_reader(f)?),
    }
""")], "cargo progenitor", ["impl", "cargo-progenitor"], """
cargo build --offline -q -p cargo-progenitor || exit 3
printf 'openapi: "3.0.3"\\ninfo:\\n  title: "t"\\n  version: "1.2.3"\\npaths:\\n  "/a":\\n    get:\\n      operationId: "get"\\n      responses:\\n        "204":\\n          description: ""\\n' >"$d/api.yaml"
cp "$d/api.yaml" "$d/api.v2"; cp "$d/api.yaml" "$d/api"; cp "$here/json.json" "$d/api.json"; cp "$here/json.json" "$d/api2"
for i in api.yaml api.json api2 api.v2 api; do
  "$d/target/debug/cargo-progenitor" progenitor -i "$d/$i" -o "$d/out" -n made -v 0.1.0 >"$d/log" 2>&1 || { echo "$i was not understood"; tail -3 "$d/log"; exit 1; }
done
""", "a YAML description in a file that is not named so", "the description is refused",
    files={"json.json": PET % ("", OBJ % "")})
tool("g16-library-name", "G16", [(X, """                    settings.with_crate(original_crate, version, Some(&crate_name));
""", """                    // Paths use the library's name.
                    settings.with_crate(original_crate.replace('-', "_"), version, Some(&crate_name));
""")], "generate_api!", ["impl", "shims/progenitor-macro", "demo"], """
cargo build --offline -q -p demo || exit 1
"$d/target/debug/demo"
""", "a renamed crate with a hyphen in its original name", "the macro generates a type of its own instead of using the crate's",
    files={"demo/Cargo.toml": """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
progenitor = { path = "../shims/progenitor", features = ["macro"] }
futures = "0.3"
reqwest = { version = "0.12.4", default-features = false, features = ["json", "stream"] }
serde = { version = "1", features = ["derive"] }
""", "demo/spec.json": PET.replace('"paths"', '"components": {"schemas": {"Thing": {"type": "object", "properties": {"n": {"type": "string"}}, "x-rust-type": {"crate": "my-ext", "version": "1.0.0", "path": "my_ext::Thing"}}}}, "paths"') % ("", '{"$ref": "#/components/schemas/Thing"}'),
    "demo/src/main.rs": """#![allow(warnings)]
extern crate self as renamed;
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Thing { pub mine: u8 }
mod client { progenitor::generate_api!(spec = "spec.json", crates = { "renamed" = "my-ext@1.0.0" }); }
pub async fn check(c: &client::Client) -> Result<client::ResponseValue<Thing>, client::Error<()>> { c.get().await }
fn main() {}
"""})

gen("g20-stream-stays-put", "G20", [(M, """                            first.chain(rest)
                        })
                        .try_flatten_stream()
                        .boxed()
""", """                            first.chain(rest)
                        })
                        .try_flatten_stream()
                        .boxed_local()
""")], """
fn keeps<T: Send>(x: T) -> T { x }
fn main() {
    let (base, log) = serve(&[]);
    let c = builder::Client::new(&base);
    let _ = keeps(c.get().stream());
    let c = positional::Client::new(&base);
    let _ = keeps(c.get_stream(None, None));
}
""", "a stream of the builder interface used by a task of its own", "it cannot be handed to another thread, so programs that spawn it no longer compile",
    doc({"/a": paged()}, page()), ["builder", "positional"])
gen("g10-path-level-wins", "G10", [(M, """            combined_path_parameters.insert(parameter_key(parameter), parameter);
""", """            combined_path_parameters
                .entry(parameter_key(parameter))
                .or_insert(parameter);
""")], '''
fn main() {
    let n = |t: &str| json!({"name": "n", "in": "query", "schema": {"type": t}});
    let o = |p: Vec<Value>| json!({"operationId": "op", "parameters": p, "responses": {"204": {"description": ""}}});
    let of = |path: Vec<Value>, op: Vec<Value>| generate(&settings(false, false), &doc(json!({"/a": {"parameters": path, "get": o(op)}}), json!({}))).unwrap();
    let want = of(vec![], vec![n("string")]);
    assert_eq!(of(vec![n("string")], vec![]), want);
    assert_eq!(of(vec![n("integer")], vec![n("string")]), want);
}
''', "a parameter declared for a path and again for its operation", "the operation's own declaration is ignored")
gen("g18-first-patch-wins", "G18", [(L, """        self.patch
            .insert(type_name.as_ref().to_string(), patch.clone());
""", """        self.patch
            .entry(type_name.as_ref().to_string())
            .or_insert_with(|| patch.clone());
""")], """
fn main() {
    let d = doc(json!({"/a": {"get": {"operationId": "get", "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}}}}}}), json!({"Thing": {"type": "object", "properties": {"n": {"type": "string"}}}}));
    let p = |n: &str| { let mut p = TypePatch::default(); p.with_derive(n); p };
    let with = |ns: &[&str]| { let mut s = settings(false, false); for n in ns { s.with_patch("Thing", &p(n)); } generate(&s, &d).unwrap() };
    assert!(with(&["Eq"]) != with(&["Hash"]));
    assert!(with(&["Eq", "Hash"]) == with(&["Hash"]));
}
""", "the same type patched twice", "the earlier patch stays in effect")
gen("g19-first-line-of-argument", "G19", [(M, """    if method
        .params
        .iter()
        .filter(|param| !param.is_page_token())
        .filter(|param| param.description.is_some())
        .count()
        > 0
    {
        buf.push_str("Arguments:\\n");
        for param in &method.params {
            if param.is_page_token() {
                continue;
            }

            buf.push_str(&format!("- `{}`", param.name));
            if let Some(description) = &param.description {
                buf.push_str(": ");
                buf.push_str(description);
""", """    if method
        .params
        .iter()
        .filter(|param| !param.is_page_token())
        .filter(|param| param.description.is_some())
        .count()
        > 0
    {
        buf.push_str("Arguments:\\n");
        for param in &method.params {
            if param.is_page_token() {
                continue;
            }

            buf.push_str(&format!("- `{}`", param.name));
            if let Some(description) = &param.description {
                buf.push_str(": ");
                // A line is a line of the list.
                buf.push_str(description.lines().next().unwrap_or_default());
""")], """
fn main() {
    let p = |d: &str| vec![json!({"name": "q", "in": "query", "description": d, "schema": {"type": "string"}}), json!({"name": "limit", "in": "query", "schema": {"type": "integer", "nullable": true}}), json!({"name": "page_token", "in": "query", "schema": {"type": "string", "nullable": true}})];
    let of = |d: &str| generate(&settings(false, false), &doc(json!({"/a": {"get": {"operationId": "get", "x-dropshot-pagination": {"required": []}, "parameters": p(d), "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Page"}}}}}}}}),
        json!({"Page": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string", "nullable": true}}}}))).unwrap();
    let c = of("What is first.\\nAnd then more.");
    assert!(c.contains("fn get_stream"));
    assert_eq!(c.matches("What is first.").count(), 2, "{c}");
    assert_eq!(c.matches("And then more.").count(), 2);
}
""", "an argument of a stream described in several lines", "the stream's documentation has only the first of them")
tool("g16-plain-paths", "G16", [(X, """            .parse::<syn::Path>()
            .map(|path| Self(path.to_token_stream()))
""", """            .call(syn::Path::parse_mod_style)
            .map(|path| Self(path.to_token_stream()))
""")], "generate_api!", ["impl", "shims/progenitor-macro", "demo"], """
cargo build --offline -q -p demo || exit 1
"$d/target/debug/demo"
""", "a hook that is a generic function with its arguments", "the macro refuses it",
    files={"demo/Cargo.toml": """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
progenitor = { path = "../shims/progenitor", features = ["macro"] }
futures = "0.3"
reqwest = { version = "0.12.4", default-features = false, features = ["json", "stream"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
""", "demo/spec.json": PET % ("", OBJ % ""),
    "demo/src/main.rs": """#![allow(warnings)]
fn seen<T: Default>(_: &reqwest::Request) {}
mod plain { progenitor::generate_api!(spec = "spec.json"); }
mod closure { progenitor::generate_api!(spec = "spec.json", pre_hook = (|_: &reqwest::Request| ())); }
mod generic { progenitor::generate_api!(spec = "spec.json", pre_hook = crate::seen::<u8>); }
fn main() {}
"""})
gen("g19-deprecated-is-optional", "G19", [(M, """                                (type_id, parameter_data.required)
""", """                                // Nobody should have to give what is on its way out.
                                let deprecated = parameter_data.deprecated.unwrap_or_default();
                                (type_id, parameter_data.required && !deprecated)
""")], """
fn main() {
    let s = |d: bool| doc(json!({"/a": {"get": {"operationId": "get", "responses": {"204": {"description": ""}}, "parameters": [{"name": "q", "in": "query", "required": true, "deprecated": d, "schema": {"type": "string"}}]}}}), json!({}));
    assert_eq!(generate(&settings(false, false), &s(true)).unwrap(), generate(&settings(false, false), &s(false)).unwrap());
}
""", "a required query parameter described as deprecated", "the parameter may be left out")
