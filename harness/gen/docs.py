"""OpenAPI documents the generator is run on. Written fresh on every build."""
import json
import os

S = {"type": "string"}
I = {"type": "integer", "format": "int32"}


def ref(n):
    return {"$ref": "#/components/schemas/" + n}


def par(where, name, schema=S, required=None, **k):
    return dict(name=name, schema=schema, required=where == "path" if required is None else required, **{"in": where}, **k)


def path(name, schema=S):
    return par("path", name, schema)


def js(schema, desc="x", ct="application/json"):
    return {"description": desc, "content": {ct: {"schema": schema}}}


NONE = {"description": ""}
RAW = {"description": "", "content": {"*/*": {"schema": {}}}}
NO204 = {"204": NONE}


def op(i, params=(), responses=None, body=None, tags=(), **k):
    o = {"operationId": i, "parameters": list(params), "responses": responses or NO204, "tags": list(tags)}
    if body:
        o["requestBody"] = body
    o.update(k)
    return o


def body(ct, schema):
    return {"required": True, "content": {ct: {"schema": schema}}}


def doc(paths, schemas=None, version="1.2.3-x", parameters=None, responses=None, bodies=None, **k):
    d = {"openapi": "3.0.3", "info": {"title": "t", "version": version}, "paths": paths,
         "components": {"schemas": schemas or {}, "parameters": parameters or {}, "responses": responses or {},
                        "requestBodies": bodies or {}}}
    d.update(k)
    return d


THING = {"type": "object", "required": ["name"], "properties": {"name": S, "size": I}}
ERR = {"type": "object", "required": ["code"], "properties": {"code": S}}
BIN = {"type": "string", "format": "binary"}

MAIN = doc({
    # request line
    "/alpha/{one}": {m: op("alpha_" + m, [path("one")], tags=["first"]) for m in
                     ("get", "put", "post", "delete", "head", "patch", "options", "trace")},
    "/plain": {"get": op("plain")},
    "/": {"get": op("root")},
    "/a-{x}.b/{y}{z}/c": {"get": op("adjacent", [path("z"), path("x"), path("y")])},
    "//dup///{id}//tail/": {"get": op("slashes", [path("id")], tags=["second"])},
    "/rep/{w}/mid/{w}": {"get": op("repeated", [path("w")])},
    "/kw/{type}/{fooBar}:go/{self}": {"get": op("renames", [path("self"), path("fooBar"), path("type")])},
    "/{first}": {"get": op("leading", [path("first")])},
    "/tp/{n}/{b}/{k}/{u}": {"get": op("typed_path", [path("k", {"type": "string", "enum": ["one-x", "Two", "a/b c"]}), path("u", {"type": "integer", "format": "uint64", "minimum": 0}),
                                                      path("n", I), path("b", {"type": "boolean"})])},
    # query parameters; those of the path are inherited and overridden
    "/q/{id}": {
        "parameters": [path("id"), par("query", "shared", required=True), par("query", "over"),
                       {"$ref": "#/components/parameters/common"}],
        "get": op("queries", [par("query", "zeta"), par("query", "alpha-beta", required=True),
                              par("query", "over", required=True), par("query", "Mixed")], tags=["first", "second"]),
        "delete": op("inherited"),
    },
    "/scalars": {"get": op("scalars", [par("query", "n", I), par("query", "b", {"type": "boolean"}, required=True),
                                       par("query", "u", {"type": "integer", "format": "uint64", "minimum": 0}),
                                       par("query", "k", {"type": "string", "enum": ["one-x", "Two", "three y"]}),
                                       par("query", "maybe", {"type": "string", "nullable": True}, required=True)])},
    "/list": {"get": op("list", [par("query", "tag", {"type": "array", "items": S}),
                                 par("query", "must", {"type": "array", "items": S}, required=True)])},
    # header parameters
    "/h/{id}": {"get": op("headed", [par("header", "X-Req", required=True), par("header", "x-opt"), path("id"),
                                     par("query", "q"), par("header", "a-first")]),
                "put": op("headed_int", [path("id"), par("header", "x-n", I, required=True), par("header", "x-m", I)])},
    # names that meet the generated code's own
    "/n/{url}/{request}": {"get": op("locals", [
        path("url"), path("request"), par("query", "response"), par("query", "result"), par("query", "client"),
        par("query", "value"), par("header", "header_map"), par("header", "value2")])},
    # bodies
    "/b/{id}": {"post": op("body_json", [path("id"), par("query", "q"), par("header", "x-h")], body=body("application/json", ref("Thing")),
                           responses={"200": js(ref("Thing")), "4XX": js(ref("Err"))}),
                "put": op("body_form", [path("id")], body=body("application/x-www-form-urlencoded", ref("Thing"))),
                "patch": op("body_octets", [path("id"), par("query", "q"), par("header", "x-h")], body=body("application/octet-stream", BIN))},
    "/bt/{id}": {"post": op("body_text", [path("id")], body=body("text/plain", S)),
                 "put": op("body_markdown", [path("id")], body=body("text/x-markdown", S)),
                 "patch": op("body_json_charset", [path("id")], body=body("application/json; charset=utf-8", S)),
                 "delete": op("body_ref", [path("id")], body={"$ref": "#/components/requestBodies/shared"})},
    "/typed": {"get": op("typed_ok", responses={"200": js(ref("Thing"))}),
               "put": op("typed_err", responses={"204": NONE, "404": js(ref("Err"))}),
               "post": op("raw_ok", responses={"200": RAW})},
}, {"Thing": THING, "Err": ERR},
    parameters={"common": par("query", "common")},
    bodies={"shared": body("application/json", ref("Thing"))},
    tags=[{"name": "first", "description": "d"}])

# every way of documenting responses; operation name -> responses
RESP = {
    "ok_only": {"200": js(ref("A"))},
    "code_and_ranges": {"200": js(ref("A")), "4XX": js(ref("E")), "5XX": js(ref("E"))},
    "two_codes": {"200": js(ref("A")), "201": js(ref("A")), "404": js(ref("E")), "503": js(ref("E"))},
    "none_and_default": {"204": NONE, "default": NONE},
    "default_typed": {"default": js(ref("A"))},
    "code_and_default": {"201": js(ref("A")), "default": js(ref("A"))},
    "range_and_default": {"2XX": js(ref("A")), "default": js(ref("A"))},
    "no_success": {"404": NONE},
    "nothing": {"302": NONE},
    "raw_both": {"200": RAW, "4XX": RAW},
    "raw_default": {"default": RAW},
    "code_in_range": {"2XX": js(ref("A")), "404": js(ref("E")), "4XX": js(ref("E"))},
    "range_success": {"2XX": NONE, "5XX": NONE},
    "charset": {"200": js(ref("A"), ct="application/json; charset=utf-8")},
    "among_others": {"200": {"description": "", "content": {"text/plain": {"schema": S}, "application/json": {"schema": ref("A")}}}},
    "by_ref": {"200": {"$ref": "#/components/responses/good"}, "404": {"$ref": "#/components/responses/bad"}},
    "edges": {"299": NONE, "400": js(ref("E")), "599": js(ref("E"))},
    "odd_codes": {"100": NONE, "200": js(ref("A")), "304": NONE, "600": js(ref("E"))},
    "json_prefix": {"200": js(ref("A"), ct="application/json-seq")},
}
RESPONSES = doc({"/r/" + k: {"get": op(k, responses=v)} for k, v in RESP.items()},
                {"A": THING, "E": ERR}, responses={"good": js(ref("A")), "bad": js(ref("E"))})

PAGE = {"type": "object", "required": ["items"], "properties": {
    "items": {"type": "array", "items": S}, "next_page": {"type": "string", "nullable": True}}}
PAGES = doc({"/pages/{id}": {"get": op(
    "pages", [path("id"), par("query", "filter"), par("query", "limit", I), par("query", "page_token"), par("header", "x-h")],
    responses={"200": js(ref("Page")), "4XX": js(ref("Err"))}, **{"x-dropshot-pagination": {"required": ["filter"]}})},
    # parameters named like variables of the stream
    "/n/{state}/{page}": {"get": op(
        "paged_locals", [path("state"), path("page"), par("query", "rest"), par("query", "next"), par("query", "limit", I), par("query", "page_token"), par("header", "first"),
                         par("header", "next_page")],
        responses={"200": js(ref("Page")), "4XX": js(ref("Err"))}, **{"x-dropshot-pagination": {"required": []}})}},
    {"Page": PAGE, "Err": ERR})

HOOKS = doc({
    "/one/{id}": {"post": op("one", [path("id"), par("header", "x-h")], body=body("application/json", ref("Thing")),
                             responses={"200": js(ref("Thing")), "4XX": js(ref("Err"))})}},
    {"Thing": THING, "Err": ERR})

SOCKET = doc({"/ws/{id}": {"get": op("channel", [path("id"), par("query", "q"), par("header", "x-h")], responses={"default": RAW},
                                     **{"x-dropshot-websocket": {}})}})

# command lines and mocks
TOOL = doc({
    "/v/{name}/{ix}": {"get": op("view", [
        path("name"), path("ix", {"type": "integer", "format": "uint32", "minimum": 0}),
        par("query", "kind", {"type": "string", "enum": ["one-x", "Two"]}, required=True), par("query", "deep", {"type": "boolean"}),
        par("query", "max-size", I), par("query", "type"), par("header", "x-trace"), par("query", "longName")],
        responses={"200": js(ref("Thing")), "4XX": js(ref("Err"))})},
    "/s/{id}": {"post": op("store", [path("id")], body=body("application/json", ref("Thing")), responses={"204": NONE, "4XX": js(ref("Err"))}),
                "put": op("nest", [path("id")], body=body("application/json", ref("Nest")), responses={"204": NONE, "5XX": NONE}),
                "delete": op("drop_it", [path("id")], responses={"204": NONE, "default": NONE})},
    "/same/{name}": {"put": op("same_name", [path("name")], body=body("application/json", ref("Thing")), responses={"204": NONE})},
    "/walk": {"get": op("walk", [par("query", "filter"), par("query", "limit", {"type": "integer", "format": "uint32", "minimum": 1}),
                                 par("query", "page_token")],
                        responses={"200": js(ref("Page")), "4XX": js(ref("Err"))}, **{"x-dropshot-pagination": {"required": ["filter"]}})},
}, {"Thing": THING, "Err": ERR, "Page": PAGE,
    "Nest": {"type": "object", "required": ["label", "inner"], "properties": {"label": S, "inner": ref("Thing")}}})
MOCKS = doc({
    "/m/{a}/x/{b}": {"get": op("two", [path("a"), path("b"), par("query", "must", required=True), par("query", "may"),
                                       par("query", "type"), par("query", "n-um", I)],
                               responses={"200": js(ref("Thing")), "404": js(ref("Err")), "5XX": js(ref("Err"))}),
                     "put": op("two_put", [path("a"), path("b")])},
    "/m/{a}": {"get": op("one", [path("a", I)], responses={"201": NONE, "default": NONE}),
               "post": op("send", [path("a")], body=body("application/json", ref("Thing"))),
               "patch": op("send_text", [path("a")], body=body("text/plain", S)),
               "put": op("send_form", [path("a")], body=body("application/x-www-form-urlencoded", ref("Thing")))},
    "/v1.0/(a+b)": {"get": op("odd"), "delete": op("odd_delete")},
    "/v1.0/all": {"get": op("all")},
}, {"Thing": THING, "Err": ERR})

# (module, document, mode)
RUNS = [
    ("pm", "main", "positional"), ("bm", "main", "builder"), ("tm", "main", "tagged"),
    ("pr", "responses", "positional"), ("br", "responses", "builder"),
    ("pp", "pages", "positional"), ("bp", "pages", "builder"),
    ("ph", "hooks", "positional-hooks"), ("bh", "hooks", "builder-hooks"),
    ("pa", "hooks", "positional-sync-hooks"),
    ("ps", "socket", "positional"), ("bs", "socket", "builder"),
]
TOOL_RUNS = [("tb", "tool", "builder"), ("tc", "tool", "cli", "crate::gen::tb"),
             ("mb", "mocks", "builder"), ("mm", "mocks", "httpmock", "crate::gen::mb")]
TOOL_DOCS = {"tool": TOOL, "mocks": MOCKS}
DOCS = {"main": MAIN, "responses": RESPONSES, "pages": PAGES, "hooks": HOOKS, "socket": SOCKET}


def write(d, docs=DOCS):
    os.makedirs(d, exist_ok=True)
    for n, v in docs.items():
        with open(os.path.join(d, n + ".json"), "w") as f:
            json.dump(v, f, indent=1)


if __name__ == "__main__":
    import sys
    write(sys.argv[1])
